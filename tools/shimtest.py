"""differential test of the numpy/scipy contract models: expressions over named vectors and matrices, evaluated by the model with
symbolic elements pinned to constants, against the real numpy.  usage: /opt/venv/bin/python tools/shimtest.py"""
import ast, os, sys, time, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as real
from vf import engine, solve, universe
from vf import terms as tm
from vf.sym import Unsupported
from fractions import Fraction as F

V = {"a": [1.5, -2.0, 0.25], "b": [0.5, 3.0, -1.25], "c": [2.0, 0.0, -0.0], "q": [0.5, -0.5, 0.5, 0.5]}
M = {"A": [[1.0, 2.0, -0.5], [0.0, 3.0, 1.0], [2.5, -1.0, 4.0]], "B": [[1.0, 0.5], [2.0, -1.0], [0.0, 3.0]]}
I = {"i": [1, -2, 3], "k": [4, 0, 2]}
S = {"s": 0.75, "t": -1.25, "u": 2.0, "n": 3}
EXPR = r"""
a+b; a-b; a*b; a/b; -a; abs(a); a**2; a**3; s**2; a@b; A@a; a@A; A@B; A.T; A.T@B; a//b; a%b; np.mod(a,b); np.fmod(a,b); np.remainder(a,2); divmod(t,s)
np.dot(a,b); np.dot(A,a); A.dot(a); a.dot(b); np.matmul(A,a); np.inner(a,b); np.outer(a,b); np.cross(a,b); np.vdot(a,b); np.einsum('ij,j->i',A,a); np.einsum('i,i',a,b); np.einsum('ij,jk->ik',A,B); np.einsum('i,j->ij',a,b); np.einsum('ii->i',A); np.einsum('ii',A)
np.tensordot(A,a,axes=1); np.tensordot(a,b,1); np.kron(a,b); np.trace(A); A.trace(); np.diag(a); np.diag(A); np.diagonal(A); A.diagonal(); np.diagflat(a); np.triu(A); np.tril(A); np.transpose(A); A.transpose()
np.sum(a); a.sum(); A.sum(axis=0); A.sum(axis=1); np.sum(A,axis=0); np.prod(a); a.prod(); a.mean(); np.mean(A,axis=0); A.mean(); a.max(); a.min(); np.max(a); np.min(A,axis=1); np.amax(a); np.amin(a); A.max(axis=0); np.ptp(a); a.argmax(); a.argmin(); np.argmax(a); np.argmin(b); np.cumsum(a); a.cumsum(); np.cumprod(a); np.diff(a); np.var(a); np.std(a); a.var(); np.median(a)
np.clip(a,-1,1); np.clip(a,b,2); a.clip(-1,1); a.clip(min=0); a.clip(max=0); np.clip(a,None,1); np.clip(a,-1,None); np.clip(a,a_min=-1,a_max=1); np.minimum(a,b); np.maximum(a,b); np.maximum(a,0); np.fmin(a,b); np.fmax(a,0.5); np.minimum.reduce(a); np.maximum.reduce(a); np.add.reduce(a); np.multiply.reduce(a); np.logical_and.reduce(a>0); np.clip(s,-1,0.5); np.clip(s,0,1); np.core.umath.clip(a,-1,1); min(s,t); max(s,t,u); min(a); max(a); sum(a); sorted(a); any(a>0); all(a>-3); abs(t); pow(s,2); round(s); round(s,1); float(s); int(u); bool(s); divmod(u,s)
np.where(a>0,a,b); np.where(a>0,a,0); np.where(a>0,1,-1); np.where([True,False,True],a,b); np.select([a>1,a<0],[a,b],0); np.choose(i>0,[a,b]); np.piecewise(a,[a<0,a>=0],[-1,1]); np.heaviside(a,0.5); np.sign(a); np.sign(c); np.copysign(a,b); np.copysign(1.0,t); math.copysign(1.0,t); np.signbit(a); np.absolute(a); np.fabs(a); np.square(a); np.sqrt(abs(a)); np.cbrt(u); np.hypot(s,t); math.hypot(s,t); np.power(a,2); np.float_power(a,2); np.reciprocal(a); np.negative(a); np.positive(a); np.subtract(a,b); np.add(a,b); np.multiply(a,b); np.divide(a,b); np.true_divide(a,b); np.floor_divide(a,b)
np.floor(a); np.ceil(a); np.rint(a); np.trunc(a); np.fix(a); np.round(a,1); a.round(); np.around(a); math.floor(t); math.ceil(t); math.trunc(t); np.modf(t); math.modf(t); math.fmod(t,s); math.fsum(a); math.prod(a); math.isclose(s,s); math.isnan(s); math.isinf(s); math.isfinite(s); math.pow(s,2); math.fabs(t); math.dist(a,b); math.remainder(t,s)
np.linalg.norm(a); np.linalg.norm(A); np.linalg.norm(A,axis=0); np.linalg.norm(A,axis=1); np.linalg.norm(a,ord=1); np.linalg.norm(a,np.inf); np.linalg.norm(a,2); np.linalg.inv(A); np.linalg.det(A); np.linalg.solve(A,a); np.linalg.matrix_power(A,2); np.linalg.multi_dot([A,B]); np.linalg.pinv(A)
np.concatenate([a,b]); np.concatenate((a,b),axis=0); np.concatenate([A,B],axis=1); np.hstack([a,b]); np.hstack((a,s)); np.vstack([a,b]); np.stack([a,b]); np.stack([a,b],axis=1); np.stack([a,b],axis=-1); np.column_stack([a,b]); np.row_stack([a,b]); np.dstack([a,b]); np.append(a,b); np.append(a,s); np.insert(a,0,s); np.insert(a,1,s); np.insert(a,3,s); np.delete(a,1); np.delete(a,[0,2]); np.r_[a,b]; np.r_[a,s]; np.r_[s,a,t]; np.c_[a,b]; np.block([[A,B]]); np.block([a,b]); np.split(q,2); np.array_split(a,2); np.hsplit(q,2); np.flip(a); np.flip(A,0); np.fliplr(A); np.flipud(A); np.roll(a,1); np.roll(q,-1); np.roll(A,1,axis=0); np.tile(a,2); np.repeat(a,2); np.broadcast_to(a,(2,3)); np.expand_dims(a,0); np.atleast_2d(a); np.atleast_1d(s); np.squeeze(A); np.ravel(A); A.flatten(); A.ravel(); A.reshape(-1); A.reshape(9); a.reshape(3,1); a.reshape((1,3)); np.reshape(A,(9,)); np.rot90(A); np.swapaxes(A,0,1); A.swapaxes(0,1); np.moveaxis(A,0,1); a[:,None]; a[None,:]; a[...,None]; a[np.newaxis]; np.meshgrid(a,b); np.take(a,[0,2]); a.take([2,0]); np.take(A,[0],axis=1); np.compress(a>0,a); np.extract(a>0,a); a[a>0]; a[[2,0]]; A[:,1]; A[1]; A[1,:]; A[0:2,1:]; A[[0,2]]; A[[0,1],[1,2]]; A[...,0]; a[::-1]; a[-1]; a[:2]; a[slice(0,2)]; a[1:][0]; np.ix_([0,1],[1,2]); A[np.ix_([0,1],[1,2])]; a.tolist(); A.tolist(); a.item(0); len(a); a.size; a.ndim; a.shape; A.shape; np.shape(A); np.size(a); np.ndim(a); list(a); tuple(a); [*a,*b]; [x for x in a]; dict(zip('xyz',a)); {**dict(zip('xyz',a))}; list(zip(a,b)); list(enumerate(a)); list(map(abs,a)); list(reversed(a)); list(filter(lambda x: x>0,a)); [x*y for x,y in zip(a,b)]
np.zeros(3); np.zeros((2,3)); np.ones(3); np.full(3,s); np.full((2,2),s); np.full(3,np.inf); np.full_like(a,s); np.zeros_like(a); np.ones_like(a); np.zeros_like(i); np.ones_like(i); np.full_like(i,2); np.empty(0); np.eye(3); np.identity(2); np.arange(3); np.arange(0,3); np.arange(1,4)*s; np.linspace(0,s,3); np.linspace(0,s,4)[1:]; np.linspace(0,1,5,endpoint=False); np.geomspace(1,8,4); np.tri(3); np.vander(a,3); np.array([s,t]); np.array([s,0]); np.array([[s,t],[t,s]]); np.array((s,1,2)); np.asarray([s,t]); np.asanyarray(a); np.ascontiguousarray(a); np.array([a,b]); np.array([*a,s]); np.array(a,dtype=np.float64); np.array(a,dtype=float); np.array(i,dtype=np.float64); np.array([1,2,3]); np.array([True,False]); np.array([1,2.5]); np.array(a,copy=True); np.fromiter((x for x in a),float); np.fromiter((x for x in a),dtype=np.float64,count=3); np.float64(s); np.float32(0.5); np.array(s); np.array(s).item(); np.float64(s).item(); a.astype(float); a.astype(np.float64); i.astype(float); a.astype(int); a.astype(bool); a.copy(); np.copy(a)
a>0; a>=b; a<b; a==b; a!=b; (a>0)&(b>0); (a>0)|(b>0); ~(a>0); (a>0)^(b>0); np.logical_and(a>0,b>0); np.logical_or(a>0,b>0); np.logical_not(a>0); np.logical_xor(a>0,b>0); np.any(a>0); np.all(a>0); (a>0).any(); (a>0).all(); (a>0).sum(); np.count_nonzero(a>0); np.sum(a>0); np.nonzero(a>0); np.flatnonzero(a>0); np.argwhere(a>0); np.where(a>0); np.isnan(a); np.isinf(a); np.isfinite(a); np.isclose(a,b); np.isclose(a,a); np.allclose(a,a); np.array_equal(a,b); np.array_equal(a,a.copy()); np.array_equiv(a,a); np.greater(a,b); np.less(a,b); np.less_equal(a,b); np.greater_equal(a,b); np.equal(a,a); np.not_equal(a,b); np.isin(i,[1,3]); np.in1d(i,[1]); np.unique(i); np.isscalar(s); np.isscalar(a); np.iterable(a); np.isreal(a); s>0; s==t; not s>0; 0<s<1; s if t>0 else t; s in (t,u); (a==b).all(); A[A>0].sum()
np.sin(a); np.cos(a); np.tan(a); np.arctan2(s,t); np.arctan(a); np.arcsin(s); np.arccos(s); np.sinc(0.0); np.exp(a); np.log(abs(a)); np.log10(u); np.log2(u); np.expm1(s); np.log1p(s); np.tanh(a); np.sinh(s); np.cosh(s); np.deg2rad(a); np.rad2deg(a); np.radians(a); np.degrees(a); math.sin(s); math.cos(s); math.tan(s); math.atan2(s,t); math.sqrt(s); math.exp(s); math.log(u); math.radians(s); math.degrees(s); math.asin(s); math.acos(s); math.pi; np.pi; np.e; math.inf; math.tau; np.unwrap(a); np.angle(s); np.sin(s)**2+np.cos(s)**2; math.sin(np.pi); np.sin(np.pi/2)
np.interp(s,[0,1,2],[1,3,2]); np.searchsorted([0.0,1.0,2.0],s); np.digitize(s,[0.0,1.0]); np.polyval([1.0,2.0,3.0],s); np.poly1d([1.0,2.0])(s); np.polynomial.polynomial.polyval(s,[1.0,2.0,3.0]); np.nan_to_num(a); np.convolve(a,b); np.correlate(a,b); np.gradient(a); np.average(a); np.average(a,weights=[1,1,2]); np.apply_along_axis(lambda r: r.sum(),1,A); np.vectorize(lambda x: x+1)(a); np.lcm(2,3); np.sort(a); np.argsort(a); np.bitwise_and(i,1); i%2; i//2; i*s; i+0.5; i**2; i/2; k@i; -i; abs(i); i.sum(); i.max(); i.mean(); np.minimum(i,k); np.clip(i,0,2); np.clip(i,-0.5,2.5); np.where(i>0,i,0.5); np.where(i>0,i,0); np.maximum(i,0.5); i.astype(np.int64); np.array([i,k]); np.concatenate([i,a]); np.append(i,s); int(i[0]); float(i[0]); i[0]/k[0]; i[0]//k[0]; i[1]%k[0]; k[0]**2
functools.reduce(lambda x,y: x+y,a); functools.reduce(np.dot,[A,B]); operator.add(s,t); operator.itemgetter(0)(a); operator.mul(a,b); itertools.chain(a,b).__next__(); list(itertools.chain(a,b)); list(itertools.accumulate(a)); list(itertools.product([1,2],[3])); sum(x*y for x,y in zip(a,b)); sum(x for x in a if x>0); [x if x>0 else 0 for x in a]; {k2: v for k2,v in zip('ab',a)}; (lambda *z: z)(*a); f"{s}" and 1; "%s" % n; copy.copy(a); copy.deepcopy(a); copy.deepcopy({'a': a})['a']; statistics.mean([1,2,3]); next(iter(a)); next((x for x in a if x<0),None); isinstance(a,np.ndarray); isinstance(s,float); isinstance(s,(int,float)); isinstance(i[0],np.integer); isinstance(a[0],np.floating); isinstance(s,numbers.Number); isinstance(s,numbers.Real); type(a).__name__=='x'; a.dtype==np.float64; np.issubdtype(a.dtype,np.floating); np.issubdtype(i.dtype,np.integer); a.dtype.kind; i.dtype.kind; (a>0).dtype==bool; a.flags.writeable; a.base is None; np.shares_memory(a,a[:1]); np.may_share_memory(a,b); a is a; a.nbytes; a.itemsize; a.strides; np.result_type(a); np.can_cast(int,float); np.promote_types(int,float); np.finfo(float).eps; np.finfo(np.float64).max; sys.float_info.epsilon; np.inf-1; -np.inf; np.nan!=np.nan; a.any(); a.all(); c.any(); bool(a.any()); a.nonzero(); a.squeeze(); a.real; a.conj(); a.T; a.flat[0]; list(a.flat); a.view(); a.cumprod(); a.repeat(2); a.searchsorted(0.1); a.ptp(); a.compress([1,0,1]); a.choose; a.fill
Rotation.from_quat(q).as_matrix(); Rotation.from_quat(q).apply(a); Rotation.from_quat(q).inv().apply(a); Rotation.from_quat(q).as_quat(); Rotation.from_euler('ZYX',a).apply(b); Rotation.from_euler('z',s).apply(a); Rotation.from_euler('ZYX',[s,0,0]).as_matrix(); Rotation.from_matrix(np.eye(3)).apply(a); Rotation.from_rotvec(np.array([0,0,1])*s).apply(a); (Rotation.from_quat(q)*Rotation.from_euler('z',s)).apply(a); Rotation.from_quat(q).apply(a,inverse=True); Rotation.from_quat(q).magnitude(); Rotation.identity().apply(a); Rotation.from_quat(q).as_rotvec(); Rotation.from_euler('ZYX',[s,t,0.5]).as_euler('ZYX'); Rotation.from_euler('xyz',[s,t,0.5]).apply(a); Rotation.from_quat([0,0,0,2.0]).as_quat()
"""
STMT = r"""
r=a.copy(); r[0]=9; out=(r,a)
r=a[:]; r[0]=9; out=(r,a)
r=a.view(); r[1]=9; out=a
r=np.asarray(a); r[0]=9; out=a
r=np.array(a); r[0]=9; out=a
r=A.T; r[0,1]=9; out=A
r=A[0]; r[1]=9; out=A
r=A[:,1]; r[:]=0; out=A
r=A[[0,1]]; r[:]=0; out=A
r=a.reshape(3,1); r[0,0]=7; out=a
r=A.ravel(); r[0]=7; out=A
r=A.flatten(); r[0]=7; out=A
r=np.ravel(A); r[1]=7; out=A
r=A.diagonal; r=np.diag(A); out=r
r=a[None]; r[0,0]=5; out=a
r=a.astype(float); r[0]=5; out=a
r=a.astype(float,copy=False); r[0]=5; out=a
r=np.atleast_1d(a); r[0]=5; out=a
r=np.squeeze(a.reshape(1,3)); r[0]=5; out=a
r=a.T; r[0]=5; out=a
r=np.broadcast_to(a,(3,)).copy(); r[0]=5; out=a
r=np.split(q,2); r[0][0]=5; out=q
r=np.expand_dims(a,0); r[0,0]=5; out=a
r=a[::-1]; r[0]=5; out=a
r=a[a>0]; r[0]=5; out=a
r=np.flip(a); r[0]=5; out=a
r=np.ascontiguousarray(a); r[0]=5; out=a
r=np.asarray(a,dtype=float); r[0]=5; out=a
r=np.asarray(i,dtype=float); r[0]=5; out=i
r=np.array(a,copy=False) if False else a; r[0]=5; out=a
r=a; r+=1; out=a
r=a; r=r+1; out=a
r=a.copy(); r*=2; out=(r,a)
r=i.copy(); r[0]=2.9; out=r
try:\n  r=i.copy(); r+=a; out=0\nexcept TypeError: out=1
try:\n  r=i.copy(); r/=2; out=0\nexcept TypeError: out=1
try:\n  r=i.copy(); r*=2; out=r\nexcept TypeError: out=1
try:\n  r=i.copy(); np.add(i,a,out=r); out=0\nexcept TypeError: out=1
try:\n  r=(a>0); r+=i; out=0\nexcept TypeError: out=1
try:\n  r=np.zeros(3,dtype=np.float32); r+=a; out=r\nexcept TypeError: out=1
try:\n  r=i.copy(); np.clip(r,-0.5,0.5,out=r); out=0\nexcept TypeError: out=1
r=i.copy(); r[:]=[1.5,2.5,3.5]; out=r
r=np.zeros(3); r[1:]=b[1:]; out=r
r=np.zeros(3); r[[0,2]]=s; out=r
r=np.zeros(3); r[a>0]=a[a>0]; out=r
r=np.zeros(3,dtype=int); r[0]=s; out=r
r=np.zeros((2,3)); r[0]=a; r[1,:]=b; out=r
r=np.zeros((3,2)); r[:,0]=a; r[:,1]=s; out=r
r=np.empty(3); r.fill(s); out=r
r=np.zeros(3); np.copyto(r,a); out=r
r=np.zeros(3); np.add(a,b,out=r); out=r
r=np.clip(a,-1,1,out=a); out=a
r=np.zeros(3); np.put(r,[0],s); out=r
r=a.copy(); r.sort(); out=r
x,y,z=a; out=x+y*z
x,*y=a; out=(x,y)
(x,y),z=(a[:2],a[2]); out=x*y+z
r=[]; r.extend(a); r.append(s); out=r
r=list(a); r[0]=4; out=(r,a)
r={}; r.setdefault('x',[]).append(s); out=r['x']
r=np.nditer(a); out=[float(v) for v in r]
r=np.zeros(3)\nfor j,v in enumerate(a): r[j]=v*2\nout=r
r=np.zeros(3)\nfor j in range(len(a)): r[j]+=a[j]\nout=r
r=s\nwhile r<3: r=r*2\nout=r
r=np.zeros(3)\nfor j in np.arange(3): r[j]=a[j]\nout=r
match n:\n  case 3: out=s\n  case _: out=t
try:\n  out=a[7]\nexcept IndexError: out=1
try:\n  out=np.zeros(2)+a\nexcept ValueError: out=1
try:\n  out=A@q\nexcept ValueError: out=1
try:\n  x,y=a\n  out=0\nexcept ValueError: out=1
try:\n  out=float(a)\nexcept TypeError: out=1
try:\n  out=bool(a>0)\nexcept ValueError: out=1
try:\n  out=int('x')\nexcept ValueError: out=1
try:\n  out=np.concatenate([a,s])\nexcept ValueError: out=1
try:\n  out={}['x']\nexcept KeyError as e: out=str(e)
try:\n  out=a.reshape(2,2)\nexcept ValueError: out=1
try:\n  r=np.zeros(3); r[:]=q; out=0\nexcept ValueError: out=1
try:\n  out=1/0\nexcept ZeroDivisionError: out=1
try:\n  out=math.sqrt(t)\nexcept ValueError: out=1
try:\n  r=np.broadcast_to(s,(3,)); r[0]=1; out=0\nexcept ValueError: out=1
r=a.copy(); r.flags.writeable=False\ntry:\n  r[0]=1; out=0\nexcept ValueError: out=1
r=a.copy(); r.setflags(write=False)\ntry:\n  r[0]=1; out=0\nexcept ValueError: out=1
from dataclasses import dataclass\n@dataclass\nclass D:\n  x: float\n  y: float=2.0\nout=D(s).x+D(s).y
from typing import NamedTuple\nclass N(NamedTuple):\n  x: float\n  y: float\nout=N(s,t).y
from collections import namedtuple, OrderedDict, defaultdict, deque, Counter\nP=namedtuple('P','x y'); out=P(s,t)._replace(x=t).x
from collections import defaultdict\nd=defaultdict(float); d['a']+=s; out=d['a']
from functools import partial, lru_cache, cached_property, singledispatch\nout=partial(lambda x,y: x-y, s)(t)
from contextlib import suppress\nout=0\nwith suppress(KeyError): out={}['x']
from enum import Enum, IntEnum\nclass E(IntEnum):\n  X=0\n  Y=2\nout=a[E.Y]
"""


def env(np, mk, mki, mks, extra):
    g = {"np": np}
    g.update({k: mk(v) for k, v in V.items()})
    g.update({k: mk(v) for k, v in M.items()})
    g.update({k: mki(v) for k, v in I.items()})
    g.update({k: mks(v) if isinstance(v, float) else v for k, v in S.items()})
    g.update(extra)
    return g


def flat(x, num):
    if isinstance(x, real.ndarray):
        k = x.dtype.kind if not hasattr(x, "sk") else x.sk[0]
        return ("arr", tuple(x.shape), k, [flat(v, num) for v in real.ndarray.flatten(x.view(real.ndarray)).tolist()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [flat(v, num) for v in x])
    if isinstance(x, dict):
        return ("dict", [(k, flat(v, num)) for k, v in x.items()])
    if isinstance(x, (bool, real.bool_)) or type(x).__name__ == "SBool":
        return bool(x)
    if isinstance(x, (str, type(None))):
        return x
    return num(x)


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or abs(x - y) <= 1e-9 * (1 + abs(y)) or (x != x and y != y)
    return x == y and type(x) is type(y)


def main():
    import scipy.spatial.transform as st, functools, operator, itertools, copy, statistics, numbers
    from vf.universe import Universe
    items = [("eval", e.strip()) for ln in EXPR.strip().splitlines() for e in ln.split("; ") if e.strip()] + [("exec", s.replace("\\n", "\n")) for s in STMT.strip().splitlines()]
    bad = unsup = ok = 0
    for kind, src in items:
        def realrun():
            g = env(real, lambda v: real.array(v, dtype=float), lambda v: real.array(v), lambda v: real.float64(v),
                    {"math": math, "Rotation": st.Rotation, "functools": functools, "operator": operator, "itertools": itertools, "copy": copy, "statistics": statistics, "numbers": numbers, "sys": sys})
            if kind == "eval":
                return eval(src, g)
            exec(src, g)
            return g.get("out")
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                w = ("ok", flat(realrun(), float))
            except Exception as e:  # noqa: BLE001
                w = ("exc", type(e).__name__)
        box = {}

        def h(vc):
            cell, pins = {}, {}

            def val(v):
                k = vc.real("v%d" % len(cell))
                pins["v%d" % len(cell)] = F(v)
                cell[len(cell)] = k
                vc.assume(k == vc.q(F(v)) if not isinstance(v, int) else k == v)
                return k

            def mk(v):
                return vc.np.array([[val(x) for x in r] for r in v] if isinstance(v[0], list) else [val(x) for x in v], dtype=vc.np.float64)
            U = vc.U
            g = env(vc.np, mk, lambda v: vc.np.array(v), val, {"math": U.shims["math"], "Rotation": U._import("scipy.spatial.transform", fromlist=("Rotation",)).Rotation,
                    "functools": functools, "operator": operator, "itertools": itertools, "copy": copy, "statistics": statistics, "numbers": numbers, "sys": sys})
            # statements of tests stay at function level
            import textwrap
            body = ("out = (" + src + ")") if kind == "eval" else src
            tree = ast.parse("def __f__(%s):\n%s\n    return out" % (", ".join(g), textwrap.indent(body.replace("; ", "\n") if kind == "exec" and "\n" not in body else body, "    ")))
            try:
                tree = universe.Instr("t").visit(tree)
            except Unsupported as e:
                box["r"] = ("unsup", str(e))
                return
            ast.fix_missing_locations(tree)
            mod = {"__builtins__": U.builtins, "__vf_lit__": universe.lit, "__vf_div__": universe.shims.div, "__vf_idiv__": universe.idiv, "__vf_fn__": lambda q: None,
                   "__vf_isgen__": universe.gen.isgen, "__vf_lc__": universe.gen.lc, "__vf_nogen__": universe.gen.nogen, "__name__": "t"}
            try:
                exec(compile(tree, "t", "exec"), mod)
                r = mod["__f__"](**g)
            except Unsupported as e:
                box["r"] = ("unsup", str(e))
                return
            except Exception as e:  # noqa: BLE001
                box["r"] = ("exc", type(e).__name__ + " " + str(e)[:90])
                return

            def num(x):
                from vf import sym
                if isinstance(x, (sym.SReal, sym.SInt)):
                    return float(tm.evalf(sym.term(x), pins))
                return float(x)
            box["r"] = ("ok", flat(r, num))
        try:
            run = engine.Run(h, (), time.time() + 20)
            run.explore()
        except BaseException as e:  # noqa: BLE001
            box["r"] = ("crash", type(e).__name__ + " " + str(e)[:150])
        if run.unsupported and "r" not in box:
            box["r"] = ("unsup", str(run.unsupported[0])[:100])
        r = box.get("r", ("none", "%s %s" % (run.notes, run.exceptions[:1])))
        if r[0] == "unsup":
            unsup += 1
            if "-u" in sys.argv:
                print("UNSUP", src.replace("\n", "\\n"), "|", r[1][:80])
        elif r[0] == w[0] and (w[0] == "exc" and r[1].split()[0] == w[1] or w[0] == "ok" and same(r[1], w[1])):
            ok += 1
        else:
            bad += 1
            print("DIFF ", src.replace("\n", "\\n"), "\n      model", str(r)[:230], "\n      real ", str(w)[:230])
    print("agree %d, unsupported %d, different %d" % (ok, unsup, bad))


if __name__ == "__main__":
    main()
