"""A numpy stand-in for the part of PyTorch 0.4 (the version named in the README) that this repository uses, without
gradients, and stand-ins for the other absent packages. PyTorch is not installed here; the code under test is the
repository's own, this only supplies the arithmetic."""
import contextlib
import sys
import types

import numpy as np

FLOAT = [np.float32]        # precision of FloatTensor; checks that compare with a tolerance raise it to float64
RNG = np.random.RandomState(0)


def raw(x):
    return x.a if isinstance(x, Tensor) else x


class Kind:
    """torch.FloatTensor and friends: a constructor and a dtype."""

    def __init__(self, get, name):
        self.get, self.name = get, name

    @property
    def np(self):
        return self.get()

    def __call__(self, *x):
        if len(x) == 1 and not isinstance(x[0], (int, np.integer)):
            return Tensor(np.array(raw(x[0]), dtype=self.np))
        return Tensor(np.zeros(x, dtype=self.np))

    def __repr__(self):
        return "torch." + self.name


FloatTensor = Kind(lambda: FLOAT[0], "FloatTensor")
DoubleTensor = Kind(lambda: np.float64, "DoubleTensor")
LongTensor = Kind(lambda: np.int64, "LongTensor")
IntTensor = Kind(lambda: np.int32, "IntTensor")
ByteTensor = Kind(lambda: np.uint8, "ByteTensor")
BoolTensor = Kind(lambda: np.bool_, "BoolTensor")


def npdtype(t):
    if isinstance(t, Kind):
        return t.np
    return t


def _bin(f):
    def g(self, o):
        return Tensor(f(self.a, self._co(o)))
    return g


def _rbin(f):
    def g(self, o):
        return Tensor(f(self._co(o), self.a))
    return g


def _div(x, y):
    """Division of integer tensors truncates in PyTorch 0.4."""
    if np.issubdtype(np.asarray(x).dtype, np.integer) and np.issubdtype(np.asarray(y).dtype, np.integer):
        return np.trunc(np.asarray(x) / np.asarray(y)).astype(np.int64)
    return x / y


class Unsupported(AttributeError):
    """The code uses something that the stand-in lacks: no verdict."""


class Size(tuple):
    def numel(self):
        return int(np.prod(self)) if self else 1


class Tensor:
    __array_priority__ = 1000
    requires_grad = False
    is_cuda = False

    def __init__(self, a):
        if isinstance(a, Tensor):
            a = a.a
        self.a = np.asarray(a)

    def _co(self, o):
        if isinstance(o, Tensor):
            return o.a
        if isinstance(o, (bool, int, float, np.generic)):          # a number does not widen a tensor
            if np.issubdtype(self.a.dtype, np.floating) or (isinstance(o, (int, np.integer)) and np.issubdtype(self.a.dtype, np.integer)):
                return self.a.dtype.type(o)
            return o
        return np.asarray(o)

    __add__, __radd__ = _bin(lambda x, y: x + y), _rbin(lambda x, y: x + y)
    __sub__, __rsub__ = _bin(lambda x, y: x - y), _rbin(lambda x, y: x - y)
    __mul__, __rmul__ = _bin(lambda x, y: x * y), _rbin(lambda x, y: x * y)
    __truediv__, __rtruediv__ = _bin(_div), _rbin(_div)
    __floordiv__ = _bin(lambda x, y: x // y)
    __mod__ = _bin(lambda x, y: x % y)
    __pow__ = _bin(lambda x, y: x ** y)
    __eq__, __ne__ = _bin(lambda x, y: (x == y)), _bin(lambda x, y: (x != y))
    __lt__, __gt__ = _bin(lambda x, y: (x < y)), _bin(lambda x, y: (x > y))
    __le__, __ge__ = _bin(lambda x, y: (x <= y)), _bin(lambda x, y: (x >= y))
    __and__, __or__ = _bin(lambda x, y: x & y), _bin(lambda x, y: x | y)
    __matmul__ = _bin(lambda x, y: x @ y)
    __xor__ = _bin(lambda x, y: x ^ y)
    __rfloordiv__, __rmod__, __rpow__ = _rbin(lambda x, y: x // y), _rbin(lambda x, y: x % y), _rbin(lambda x, y: x ** y)
    __rmatmul__ = _rbin(lambda x, y: x @ y)
    __rand__, __ror__, __rxor__ = _rbin(lambda x, y: x & y), _rbin(lambda x, y: x | y), _rbin(lambda x, y: x ^ y)
    __hash__ = object.__hash__
    add, sub, mul, div, eq = __add__, __sub__, __mul__, __truediv__, __eq__

    def __neg__(self):
        return Tensor(-self.a)

    def __invert__(self):
        return Tensor(~self.a)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (Tensor(x) for x in self.a)

    def __bool__(self):
        return bool(self.a)

    def __float__(self):
        return float(self.a)

    def __int__(self):
        return int(self.a)

    __index__ = __int__

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    def __repr__(self):
        return "tensor(%r)" % (self.a,)

    def _key(self, k):
        if isinstance(k, tuple):
            return tuple(raw(x) for x in k)
        return raw(k)

    def __getitem__(self, k):
        return Tensor(self.a[self._key(k)])        # a view for basic indices, as in torch

    def __setitem__(self, k, v):
        self.a[self._key(k)] = raw(v)

    @property
    def shape(self):
        return Size(self.a.shape)

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def data(self):
        return self

    @property
    def device(self):
        return "cpu"

    @property
    def ndim(self):
        return self.a.ndim

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim

    def numel(self):
        return int(self.a.size)

    nelement = numel

    def type(self, t=None):
        return Tensor(self.a.astype(npdtype(t), copy=False)) if t is not None else "torch.Tensor"

    def to(self, *args, dtype=None, **k):
        for x in args:
            if not isinstance(x, str):
                dtype = x
        if isinstance(dtype, Tensor):
            dtype = dtype.a.dtype
        return Tensor(self.a.astype(npdtype(dtype), copy=False)) if dtype is not None else self

    def float(self):
        return Tensor(self.a.astype(FLOAT[0], copy=False))

    def double(self):
        return Tensor(self.a.astype(np.float64, copy=False))

    def long(self):
        return Tensor(self.a.astype(np.int64, copy=False))

    def int(self):
        return Tensor(self.a.astype(np.int32, copy=False))

    def bool(self):
        return Tensor(self.a.astype(np.bool_, copy=False))

    def cpu(self):
        return self

    cuda = detach = contiguous_ = cpu

    def contiguous(self):
        return Tensor(np.ascontiguousarray(self.a))

    def clone(self):
        return Tensor(self.a.copy())

    def numpy(self):
        return self.a

    def tolist(self):
        return self.a.tolist()

    def item(self):
        return self.a.item()

    def view(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return Tensor(self.a.reshape([int(x) for x in s]))

    reshape = view

    def flatten(self, start_dim=0, end_dim=-1):
        if start_dim == 0 and end_dim in (-1, self.a.ndim - 1):
            return Tensor(self.a.reshape(-1))
        e = end_dim % self.a.ndim
        return Tensor(self.a.reshape(self.a.shape[:start_dim] + (-1,) + self.a.shape[e + 1:]))

    def transpose(self, i, j):
        return Tensor(np.swapaxes(self.a, i, j))

    def t(self):
        return Tensor(self.a.T)

    def permute(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return Tensor(np.transpose(self.a, s))

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.a, d))

    def squeeze(self, d=None):
        return Tensor(np.squeeze(self.a) if d is None else np.squeeze(self.a, d) if self.a.shape[d] == 1 else self.a)

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        old = (1,) * (len(s) - self.a.ndim) + self.a.shape
        return Tensor(np.broadcast_to(self.a, [o if x == -1 else x for x, o in zip(s, old)]))

    def expand_as(self, o):
        return Tensor(np.broadcast_to(self.a, o.a.shape))

    def repeat(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return Tensor(np.tile(self.a, s))

    def _red(self, f, dim, keepdim):
        a = self.a.astype(np.int64) if self.a.dtype in (np.bool_, np.uint8) else self.a
        dim = tuple(dim) if isinstance(dim, list) else dim
        return Tensor(f(a, axis=dim, keepdims=keepdim) if dim is not None else f(a))

    def sum(self, dim=None, keepdim=False, dtype=None):
        r = self._red(np.sum, dim, keepdim)
        return r if dtype is None else r.type(dtype)

    def mean(self, dim=None, keepdim=False):
        return self._red(np.mean, dim, keepdim)

    def max(self, dim=None, keepdim=False):
        if isinstance(dim, Tensor):
            return Tensor(np.maximum(self.a, dim.a))
        if dim is None:
            return Tensor(self.a.max())
        return Tensor(self.a.max(axis=dim, keepdims=keepdim)), self.argmax(dim, keepdim)

    def min(self, dim=None, keepdim=False):
        if isinstance(dim, Tensor):
            return Tensor(np.minimum(self.a, dim.a))
        if dim is None:
            return Tensor(self.a.min())
        i = self.a.argmin(axis=dim)
        return Tensor(self.a.min(axis=dim, keepdims=keepdim)), Tensor(np.expand_dims(i, dim) if keepdim else i)

    def argmax(self, dim=None, keepdim=False):
        i = self.a.argmax(axis=dim)
        return Tensor(np.expand_dims(i, dim) if keepdim else i)

    def abs(self):
        return Tensor(np.abs(self.a))

    def sqrt(self):
        return Tensor(np.sqrt(self.a))

    def exp(self):
        return Tensor(np.exp(self.a))

    def log(self):
        return Tensor(np.log(self.a))

    def sigmoid(self):
        return sigmoid(self)

    def all(self, dim=None, keepdim=False):
        return Tensor(self.a.all() if dim is None else self.a.all(axis=dim, keepdims=keepdim))

    def any(self, dim=None, keepdim=False):
        return Tensor(self.a.any() if dim is None else self.a.any(axis=dim, keepdims=keepdim))

    def nonzero(self, as_tuple=False):
        if as_tuple:
            return tuple(Tensor(x) for x in np.nonzero(self.a))
        return Tensor(np.argwhere(self.a))

    def topk(self, k, dim=-1, largest=True, sorted=True):
        i = np.argsort(-self.a if largest else self.a, axis=dim, kind="stable")
        i = np.take(i, np.arange(k), axis=dim)
        return Tensor(np.take_along_axis(self.a, i, axis=dim)), Tensor(i.astype(np.int64))

    def sort(self, dim=-1, descending=False):
        i = np.argsort(-self.a if descending else self.a, axis=dim, kind="stable")
        return Tensor(np.take_along_axis(self.a, i, axis=dim)), Tensor(i.astype(np.int64))

    def gather(self, dim, index):
        i = raw(index)
        if not np.issubdtype(i.dtype, np.integer):
            raise RuntimeError("gather: the index is not a LongTensor")
        sl = [slice(0, s) for s in i.shape]
        sl[dim] = slice(None)
        if i.size and (i.min() < 0 or i.max() >= self.a.shape[dim]):
            raise RuntimeError("gather: index out of range")
        return Tensor(np.take_along_axis(self.a[tuple(sl)], i, axis=dim))

    def masked_fill(self, mask, v):
        return Tensor(np.where(raw(mask).astype(bool), np.asarray(v, dtype=self.a.dtype), self.a))

    def masked_fill_(self, mask, v):
        self.a[raw(mask).astype(bool)] = v
        return self

    def fill_(self, v):
        self.a[...] = raw(v)
        return self

    def zero_(self):
        return self.fill_(0)

    def copy_(self, o):
        return self.fill_(o)

    def clamp(self, min=None, max=None):
        return Tensor(np.clip(self.a, raw(min), raw(max)).astype(self.a.dtype))

    def index_select(self, dim, index):
        return Tensor(np.take(self.a, raw(index), axis=dim))

    def masked_select(self, mask):
        return Tensor(self.a[raw(mask).astype(bool)])

    def scatter_(self, dim, index, src=None, value=None):
        i, v = raw(index), raw(value if src is None else src)
        if i.size and (i.min() < 0 or i.max() >= self.a.shape[dim]):
            raise RuntimeError("scatter: index out of range")
        g = list(np.ogrid[tuple(slice(x) for x in i.shape)])
        g[dim] = i
        self.a[tuple(g)] = v if np.ndim(v) == 0 else np.asarray(v)[tuple(slice(x) for x in i.shape)]
        return self

    def scatter_add_(self, dim, index, src):
        i = raw(index)
        g = list(np.ogrid[tuple(slice(x) for x in i.shape)])
        g[dim] = i
        np.add.at(self.a, tuple(g), raw(src)[tuple(slice(x) for x in i.shape)])
        return self

    def _at(self, dim, index):
        k = [slice(None)] * self.a.ndim
        k[dim] = raw(index)
        return tuple(k)

    def index_fill_(self, dim, index, v):
        self.a[self._at(dim, index)] = raw(v)
        return self

    def index_copy_(self, dim, index, src):
        self.a[self._at(dim, index)] = raw(src)
        return self

    def index_add_(self, dim, index, src):
        np.add.at(self.a, self._at(dim, index), raw(src))
        return self

    def masked_scatter_(self, mask, src):
        m = np.broadcast_to(raw(mask).astype(bool), self.a.shape)
        self.a[m] = raw(src).reshape(-1)[:int(m.sum())]
        return self

    def clamp_(self, min=None, max=None):
        return self.fill_(self.clamp(min, max))

    def clamp_min(self, v):
        return self.clamp(min=v)

    def clamp_max(self, v):
        return self.clamp(max=v)

    def narrow(self, dim, start, length):
        k = [slice(None)] * self.a.ndim
        k[dim] = slice(start, start + length)
        return self[tuple(k)]

    def split(self, size, dim=0):
        n = self.a.shape[dim]
        size = size if isinstance(size, (list, tuple)) else [size] * (n // size) + ([n % size] if n % size else [])
        at = np.cumsum([0] + list(size))
        return tuple(self.narrow(dim, int(b), int(l)) for b, l in zip(at, size))

    def flip(self, *dims):
        dims = dims[0] if len(dims) == 1 and isinstance(dims[0], (tuple, list)) else dims
        return Tensor(np.flip(self.a, dims).copy())

    def roll(self, shifts, dims=None):
        return Tensor(np.roll(self.a, shifts, dims))

    def tril(self, k=0):
        return Tensor(np.tril(self.a, k))

    def triu(self, k=0):
        return Tensor(np.triu(self.a, k))

    def cumprod(self, dim):
        return Tensor(np.cumprod(self.a, axis=dim))

    def repeat_interleave(self, k, dim=None):
        return Tensor(np.repeat(self.a, raw(k), axis=dim))

    def where(self, c, o):
        return Tensor(np.where(raw(c).astype(bool), self.a, raw(o)))

    def take(self, index):
        return Tensor(np.take(self.a, raw(index)))

    def norm(self, p=2, dim=None, keepdim=False):
        a = np.abs(self.a.reshape(-1) if dim is None else self.a) ** p
        return Tensor((a.sum() if dim is None else a.sum(axis=tuple(dim) if isinstance(dim, list) else dim, keepdims=keepdim)) ** (1 / p))

    def amax(self, dim=None, keepdim=False):
        return self._red(np.max, dim, keepdim)

    def amin(self, dim=None, keepdim=False):
        return self._red(np.min, dim, keepdim)

    def median(self):
        return Tensor(np.sort(self.a.reshape(-1))[(self.a.size - 1) // 2])

    def unique(self, sorted=True):
        return Tensor(np.unique(self.a))

    def dot(self, o):
        return Tensor(np.dot(self.a, raw(o)))

    def ger(self, o):
        return Tensor(np.outer(self.a, raw(o)))

    def equal(self, o):
        return self.a.shape == raw(o).shape and bool((self.a == raw(o)).all())

    def allclose(self, o, rtol=1e-5, atol=1e-8):
        return bool(np.allclose(self.a, raw(o), rtol, atol))

    def addcmul(self, x, y, value=1):
        return self + value * x * y

    def addcdiv(self, x, y, value=1):
        return self + value * x / y

    def new_full(self, s, v, **k):
        return Tensor(np.full(s, v, dtype=self.a.dtype))

    def new_tensor(self, x, **k):
        return Tensor(np.array(raw(x), dtype=self.a.dtype))

    def short(self):
        return Tensor(self.a.astype(np.int16, copy=False))

    def byte(self):
        return Tensor(self.a.astype(np.uint8, copy=False))

    def ravel(self):
        return Tensor(self.a.reshape(-1))

    def movedim(self, i, j):
        return Tensor(np.moveaxis(self.a, i, j))

    def apply_(self, f):
        return self.fill_(np.vectorize(f, otypes=[self.a.dtype])(self.a))

    @property
    def T(self):
        return Tensor(self.a.T)

    @property
    def is_leaf(self):
        return True

    def prod(self, dim=None, keepdim=False):
        return self._red(np.prod, dim, keepdim)

    def std(self, dim=None, keepdim=False):
        return self._red(lambda a, **k: np.std(a, ddof=1, **k), dim, keepdim)

    def var(self, dim=None, keepdim=False):
        return self._red(lambda a, **k: np.var(a, ddof=1, **k), dim, keepdim)

    def cumsum(self, dim):
        return Tensor(np.cumsum(self.a, axis=dim))

    def argmin(self, dim=None, keepdim=False):
        i = self.a.argmin(axis=dim)
        return Tensor(np.expand_dims(i, dim) if keepdim else i)

    def argsort(self, dim=-1, descending=False):
        return self.sort(dim, descending)[1]

    def softmax(self, dim):
        return softmax(self, dim)

    def log_softmax(self, dim):
        return log_softmax(self, dim)

    def relu(self):
        return relu(self)

    def type_as(self, o):
        return Tensor(self.a.astype(o.a.dtype))

    def is_contiguous(self):
        return True

    def requires_grad_(self, flag=True):
        return self

    def new_zeros(self, *s, **k):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return Tensor(np.zeros(s, dtype=self.a.dtype))

    def new_ones(self, *s, **k):
        return Tensor(self.new_zeros(*s).a + self.a.dtype.type(1))

    def view_as(self, o):
        return self.view(*o.a.shape)

    def chunk(self, k, dim=0):
        return tuple(Tensor(x) for x in np.array_split(self.a, k, axis=dim))

    def select(self, dim, i):
        return Tensor(np.take(self.a, i, axis=dim))

    def diagonal(self, offset=0, dim1=0, dim2=1):
        return Tensor(np.diagonal(self.a, offset, dim1, dim2))

    def unbind(self, dim=0):
        return tuple(Tensor(x) for x in np.moveaxis(self.a, dim, 0))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("the stand-in for PyTorch has no Tensor." + k)

    def backward(self):
        raise NotImplementedError


def _elementwise():
    for name, f in dict(floor=np.floor, ceil=np.ceil, round=np.round, tanh=np.tanh, sin=np.sin, cos=np.cos, sign=np.sign, neg=np.negative,
                        log2=np.log2, log10=np.log10, log1p=np.log1p, expm1=np.expm1, reciprocal=np.reciprocal, square=np.square,
                        rsqrt=lambda a: 1 / np.sqrt(a), trunc=np.trunc, isnan=np.isnan, isinf=np.isinf, isfinite=np.isfinite,
                        logical_not=np.logical_not).items():
        setattr(Tensor, name, (lambda f: lambda self: Tensor(f(self.a)))(f))
    for name in "pow lt gt le ge ne floordiv mod matmul".split():
        setattr(Tensor, name, getattr(Tensor, "__%s__" % name))
    for name, f in dict(maximum=np.maximum, minimum=np.minimum, logical_and=np.logical_and, logical_or=np.logical_or,
                        logical_xor=np.logical_xor, fmod=np.fmod, remainder=np.mod, atan2=np.arctan2).items():
        setattr(Tensor, name, (lambda f: lambda self, o: Tensor(f(self.a, self._co(o))))(f))
    Tensor.true_divide, Tensor.divide, Tensor.multiply, Tensor.subtract = Tensor.div, Tensor.div, Tensor.mul, Tensor.sub
    for name in "add sub mul div pow floordiv eq ne lt gt le ge fmod remainder".split():
        def inplace(self, o, g=getattr(Tensor, name)):
            self.a[...] = g(self, o).a
            return self
        setattr(Tensor, name + "_", inplace)
    for name, op in dict(iadd="__add__", isub="__sub__", imul="__mul__", itruediv="__truediv__", ifloordiv="__floordiv__",
                         imod="__mod__", ipow="__pow__", iand="__and__", ior="__or__", ixor="__xor__").items():
        def augmented(self, o, g=getattr(Tensor, op)):          # x += y changes x itself, as in PyTorch
            self.a[...] = g(self, o).a
            return self
        setattr(Tensor, "__%s__" % name, augmented)
    for name in "abs sqrt exp log floor ceil round neg tanh reciprocal rsqrt sigmoid relu".split():
        def inplace1(self, g=getattr(Tensor, name)):
            self.a[...] = g(self).a
            return self
        setattr(Tensor, name + "_", inplace1)
    for name in "scatter scatter_add index_fill index_copy index_add masked_scatter".split():
        setattr(Tensor, name, (lambda g: lambda self, *a, **k: g(self.clone(), *a, **k))(getattr(Tensor, name + "_")))
    for name in "unsqueeze squeeze transpose t".split():
        def reshaped(self, *a, g=getattr(Tensor, name), **k):
            self.a = g(self, *a, **k).a
            return self
        setattr(Tensor, name + "_", reshaped)
    Tensor.bmm = Tensor.mm = Tensor.matmul
    Tensor.outer, Tensor.swapaxes, Tensor.size_ = Tensor.ger, Tensor.transpose, Tensor.size


_elementwise()


def sigmoid(x):
    with np.errstate(over="ignore"):
        return Tensor(1 / (1 + np.exp(-raw(x))))


def relu(x, inplace=False):
    if inplace:
        return x.fill_(np.maximum(raw(x), 0))
    return Tensor(np.maximum(raw(x), 0))


def log_softmax(x, dim=-1):
    a = raw(x)
    a = a - a.max(axis=dim, keepdims=True)
    return Tensor(a - np.log(np.exp(a).sum(axis=dim, keepdims=True)))


def softmax(x, dim=-1):
    a = raw(x)
    e = np.exp(a - a.max(axis=dim, keepdims=True))
    return Tensor(e / e.sum(axis=dim, keepdims=True))


def randint(low, high=None, size=None, **k):
    return Tensor(RNG.randint(low, high, size=size))


# ---- modules --------------------------------------------------------------------------------------------------
class Parameter(Tensor):
    pass


class Module:
    training = True

    def __init__(self):
        object.__setattr__(self, "_ready", True)

    def __setattr__(self, k, v):
        if isinstance(v, (Module, Parameter)) and "_ready" not in vars(self):
            raise AttributeError("cannot assign module before Module.__init__() call")
        object.__setattr__(self, k, v)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def _children(self):
        return [(k, v) for k, v in vars(self).items() if isinstance(v, Module)]

    def children(self):
        return iter(v for _, v in self._children())

    def modules(self):
        yield self
        for _, v in self._children():
            yield from v.modules()

    def named_parameters(self, prefix=""):
        for k, v in vars(self).items():
            if isinstance(v, Parameter):
                yield prefix + k, v
        for k, m in self._children():
            yield from m.named_parameters(prefix + k + ".")

    def parameters(self):
        return (p for _, p in self.named_parameters())

    def state_dict(self):
        return dict(self.named_parameters())

    def load_state_dict(self, sd, strict=True):
        mine = dict(self.named_parameters())
        if set(mine) != set(sd):
            raise RuntimeError("load_state_dict: missing %s, unexpected %s" % (sorted(set(mine) - set(sd)), sorted(set(sd) - set(mine))))
        for k, p in mine.items():
            if p.a.shape != raw(sd[k]).shape:
                raise RuntimeError("load_state_dict: size mismatch for " + k)
            p.a = np.array(raw(sd[k]), dtype=FLOAT[0])

    def train(self, mode=True):
        for m in self.modules():
            m.training = mode
        return self

    def eval(self):
        return self.train(False)

    def cuda(self, *a):
        return self

    to = cpu = float = cuda


    def named_children(self):
        return iter(self._children())

    def named_modules(self, prefix=""):
        yield prefix, self
        for k, m in self._children():
            yield from m.named_modules(prefix + "." + k if prefix else k)

    def add_module(self, name, m):
        setattr(self, name, m)

    register_module = add_module

    def register_parameter(self, name, p):
        setattr(self, name, p)

    register_buffer = register_parameter

    def apply(self, f):
        for m in self.modules():
            f(m)
        return self

    def zero_grad(self, *a, **k):
        pass

    def __getattr__(self, k):
        raise Missing("%s has no attribute %s" % (type(self).__name__, k))


class Missing(AttributeError):
    pass


class DataParallel(Module):
    def __init__(self, module, *a, **k):
        super().__init__()
        self.module = module

    def forward(self, *a, **k):
        return self.module(*a, **k)


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        for m in ms:
            self.append(m)

    def append(self, m):
        setattr(self, str(len(self)), m)
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def _all(self):
        return [v for _, v in self._children()]

    def __len__(self):
        return len(self._children())

    def __iter__(self):
        return iter(self._all())

    def __getitem__(self, i):
        return type(self)(*self._all()[i]) if isinstance(i, slice) and isinstance(self, Sequential) else self._all()[i]


class Sequential(ModuleList):
    def __init__(self, *ms):
        super().__init__()
        if len(ms) == 1 and isinstance(ms[0], dict):
            for k, m in ms[0].items():
                setattr(self, k, m)
        else:
            self.extend(ms)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class Linear(Module):
    def __init__(self, i, o, bias=True):
        super().__init__()
        self.weight = Parameter(RNG.uniform(-1, 1, (o, i)).astype(FLOAT[0]))
        self.bias = Parameter(RNG.uniform(-1, 1, o).astype(FLOAT[0])) if bias else None

    def forward(self, x):
        a = raw(x)
        if a.shape[-1] != self.weight.a.shape[1]:
            raise RuntimeError("size mismatch in Linear")
        y = a @ self.weight.a.T
        return Tensor(y + self.bias.a if self.bias is not None else y)


class Embedding(Module):
    def __init__(self, n, d):
        super().__init__()
        self.weight = Parameter(RNG.uniform(-1, 1, (n, d)).astype(FLOAT[0]))

    def forward(self, x):
        a = raw(x)
        if not np.issubdtype(a.dtype, np.integer):
            raise RuntimeError("Embedding needs a LongTensor")
        if a.size and (a.min() < 0 or a.max() >= len(self.weight.a)):
            raise RuntimeError("Embedding: index out of range")
        return Tensor(self.weight.a[a])


class _BatchNorm(Module):
    dims = ()

    def __init__(self, c, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True):
        super().__init__()
        self.eps, self.track = eps, track_running_stats
        self.c = c
        self.weight = Parameter(RNG.uniform(0.2, 1, c).astype(FLOAT[0])) if affine else None
        self.bias = Parameter(RNG.uniform(-1, 1, c).astype(FLOAT[0])) if affine else None

    def forward(self, x):
        a = raw(x)
        if a.ndim not in self.dims or a.shape[1] != self.c:
            raise RuntimeError("BatchNorm: unexpected shape %r" % (a.shape,))
        sh = [1, self.c] + [1] * (a.ndim - 2)
        if self.track and not self.training:
            mean, var = np.zeros(sh, a.dtype), np.ones(sh, a.dtype)
        else:
            ax = tuple(k for k in range(a.ndim) if k != 1)
            mean, var = a.mean(axis=ax, keepdims=True), a.var(axis=ax, keepdims=True)
        y = (a - mean) / np.sqrt(var + a.dtype.type(self.eps))
        return Tensor(y * self.weight.a.reshape(sh) + self.bias.a.reshape(sh) if self.weight is not None else y)


class BatchNorm1d(_BatchNorm):
    dims = (2, 3)


class BatchNorm2d(_BatchNorm):
    dims = (4,)


class ReLU(Module):
    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace

    def forward(self, x):
        return relu(x, self.inplace)


class Sigmoid(Module):
    def forward(self, x):
        return sigmoid(x)


class Tanh(Module):
    def forward(self, x):
        return x.tanh()


class Identity(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return x


class Dropout(Identity):
    def forward(self, x):
        if self.training:
            raise Unsupported("the stand-in for PyTorch has no dropout while training")
        return x


class Softmax(Module):
    f = staticmethod(softmax)

    def __init__(self, dim=-1):
        super().__init__()
        self.dim = dim

    def forward(self, x):
        return self.f(x, self.dim)


class LogSoftmax(Softmax):
    f = staticmethod(log_softmax)


class ModuleDict(Module):
    def __init__(self, ms=None):
        super().__init__()
        for k, m in (ms or {}).items():
            setattr(self, k, m)

    def __getitem__(self, k):
        return dict(self._children())[k]

    def __setitem__(self, k, m):
        setattr(self, k, m)

    def __iter__(self):
        return iter(dict(self._children()))

    def __len__(self):
        return len(self._children())

    def keys(self):
        return dict(self._children()).keys()

    def values(self):
        return dict(self._children()).values()

    def items(self):
        return dict(self._children()).items()


class NLLLoss(Module):
    def __init__(self, weight=None, reduction="mean", **k):
        super().__init__()
        self.weight = weight

    def forward(self, y, t):
        a, t = raw(y), raw(t)
        w = np.ones(a.shape[1]) if self.weight is None else raw(self.weight)
        p = np.take_along_axis(a, np.expand_dims(t, 1), axis=1)[:, 0]
        ws = w[t]
        return Tensor(-(p * ws).sum() / ws.sum())


class _Any(types.ModuleType):
    """A module whose every attribute is a harmless callable."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = _Stub()
        setattr(self, k, v)
        return v


class _Stub:
    def __call__(self, *a, **k):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self

    def __iter__(self):
        return iter((self, self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


CHECKPOINT = {}             # path suffix -> what torch.load returns
SHUFFLE = np.random.RandomState(0)
KMEDOIDS = [None]           # (points, k) -> indices of the medoids


def compute_class_weight(class_weight=None, *args, classes=None, y=None):
    classes = args[0] if classes is None else classes
    y = args[1] if y is None else y
    return np.array([len(y) / (len(classes) * float(np.sum(np.asarray(y) == c))) for c in classes])


class KMedoids:
    """Picks medoids as the check decides; labels are the nearest ones."""

    def __init__(self, n_clusters=8, metric="euclidean", method="alternate", init="heuristic", max_iter=300, random_state=None):
        self.k = n_clusters

    def fit(self, x, y=None):
        x = np.asarray(x)
        if len(x) < self.k:
            raise ValueError("The number of medoids (%d) must be less than the number of samples %d." % (self.k, len(x)))
        self.medoid_indices_ = np.asarray(KMEDOIDS[0](x, self.k))
        self.cluster_centers_ = x[self.medoid_indices_]
        self.labels_ = np.array([int(np.argmin(((self.cluster_centers_ - p) ** 2).sum(axis=1))) for p in x])
        return self


def shuffle(*arrays, random_state=None, n_samples=None):
    out = []
    perm = SHUFFLE.permutation(len(arrays[0]))
    for a in arrays:
        out.append([a[i] for i in perm] if isinstance(a, list) else a[perm])
    return out[0] if len(out) == 1 else out


def install():
    t = types.ModuleType("torch")
    t.Tensor = Tensor
    t.Size = Size
    for k in (FloatTensor, DoubleTensor, LongTensor, IntTensor, ByteTensor, BoolTensor):
        setattr(t, k.name, k)
    Tensor_new = Tensor.__init__
    t.float, t.float32, t.float64, t.long, t.int64 = FloatTensor, FloatTensor, DoubleTensor, LongTensor, LongTensor
    t.uint8, t.bool = ByteTensor, BoolTensor

    def cast(a, dtype=None):
        return Tensor(a if dtype is None else a.astype(npdtype(dtype)))

    def size(s):
        return tuple(int(x) for x in (s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s))
    t.zeros = lambda *s, dtype=None, **k: cast(np.zeros(size(s), dtype=FLOAT[0]), dtype)
    t.ones = lambda *s, dtype=None, **k: cast(np.ones(size(s), dtype=FLOAT[0]), dtype)
    t.full = lambda s, v, dtype=None, **k: cast(np.full(size((s,)), v, dtype=None if dtype else FLOAT[0]), dtype)
    t.zeros_like = lambda x, dtype=None, **k: cast(np.zeros_like(raw(x)), dtype)
    t.ones_like = lambda x, dtype=None, **k: cast(np.ones_like(raw(x)), dtype)
    t.arange = lambda *s, dtype=None, **k: cast(np.arange(*[raw(x) for x in s]), dtype)
    t.randint = randint
    t.tensor = lambda x, dtype=None, **k: cast(np.array(raw(x), dtype=FLOAT[0] if np.asarray(raw(x)).dtype == np.float64 and dtype is None else None), dtype)
    t.from_numpy = lambda x: Tensor(x)
    t.as_tensor = t.tensor
    t.eq = lambda x, y: Tensor((raw(x) == raw(y)).astype(np.uint8))
    t.full_like = lambda x, v, **k: Tensor(np.full_like(raw(x), v))
    t.cat = lambda xs, dim=0: Tensor(np.concatenate([raw(x) for x in xs], axis=dim))
    t.stack = lambda xs, dim=0: Tensor(np.stack([raw(x) for x in xs], axis=dim))
    for f in "sum mean max min argmax argmin argsort abs sqrt exp log all any topk sort gather transpose unsqueeze squeeze flatten reshape permute floor ceil round prod std var cumsum clamp index_select masked_select masked_fill chunk unbind diagonal select add sub mul div pow lt gt le ge ne mm bmm nonzero t scatter scatter_add index_fill narrow split flip roll tril triu cumprod repeat_interleave take norm amax amin median unique dot ger outer equal allclose addcmul sign tanh sin cos neg log2 log10 log1p expm1 reciprocal square rsqrt trunc isnan isinf isfinite logical_not logical_and logical_or logical_xor maximum minimum fmod remainder numel clone true_divide divide multiply subtract swapaxes movedim ravel".split():
        setattr(t, f, (lambda f: lambda x, *a, **k: getattr(x, f)(*a, **k))(f))
    t.sigmoid, t.relu, t.softmax, t.log_softmax = sigmoid, relu, softmax, log_softmax
    t.tanh = lambda x: Tensor(np.tanh(raw(x)))
    t.matmul = lambda x, y: Tensor(raw(x) @ raw(y))
    t.einsum = lambda s, *xs: Tensor(np.einsum(s, *[raw(x) for x in xs]))
    t.where = lambda c, x, y: Tensor(np.where(raw(c).astype(bool), raw(x), raw(y)))
    t.is_tensor = lambda x: isinstance(x, Tensor)
    t.eye = lambda n, m=None, **k: Tensor(np.eye(n, m, dtype=FLOAT[0]))
    t.empty = t.zeros
    t.rand = lambda *s, **k: Tensor(RNG.rand(*size(s)).astype(FLOAT[0]))
    t.randn = lambda *s, **k: Tensor(RNG.randn(*size(s)).astype(FLOAT[0]))
    t.randperm = lambda n, **k: Tensor(RNG.permutation(n))
    t.linspace = lambda a, b, steps=100, **k: Tensor(np.linspace(a, b, steps).astype(FLOAT[0]))
    t.meshgrid = lambda *xs, **k: tuple(Tensor(x) for x in np.meshgrid(*[raw(x) for x in xs], indexing="ij"))
    t.empty_like = t.zeros_like
    t.concat = t.cat
    t.int32, t.int, t.double = IntTensor, IntTensor, DoubleTensor
    t.manual_seed = lambda s: RNG.seed(s)

    @contextlib.contextmanager
    def no_grad():
        yield
    t.no_grad = no_grad
    t.set_grad_enabled = lambda x: no_grad()

    def load(path, map_location=None, **k):
        for s, v in CHECKPOINT.items():
            if str(path).replace("//", "/").endswith(s):
                return v
        raise FileNotFoundError(2, "No such file or directory", path)
    t.load = load
    t.device = lambda s: s
    class Torch(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Unsupported("the stand-in for PyTorch has no torch." + k)
    t.__class__ = Torch
    cuda = types.ModuleType("torch.cuda")
    cuda.is_available = lambda: False
    cuda.manual_seed = lambda s: None
    cuda.FloatTensor, cuda.LongTensor = FloatTensor, LongTensor
    autograd = types.ModuleType("torch.autograd")
    autograd.Variable = lambda x, requires_grad=False, volatile=False: x
    autograd.no_grad = no_grad
    nn = types.ModuleType("torch.nn")
    for c in (Module, DataParallel, ModuleList, Sequential, Linear, Embedding, BatchNorm1d, BatchNorm2d, ReLU, NLLLoss, Parameter,
              Sigmoid, Tanh, Identity, Dropout, Softmax, LogSoftmax, ModuleDict):
        setattr(nn, c.__name__, c)
    F = types.ModuleType("torch.nn.functional")
    F.softmax, F.log_softmax, F.relu, F.sigmoid = softmax, log_softmax, relu, sigmoid
    F.nll_loss = lambda y, tt, weight=None: NLLLoss(weight)(y, tt)
    F.linear = lambda x, w, b=None: Tensor(raw(x) @ raw(w).T + (0 if b is None else raw(b)))
    F.embedding = lambda i, w: Tensor(raw(w)[raw(i)])
    F.tanh = lambda x: x.tanh()
    F.leaky_relu = lambda x, slope=0.01: Tensor(np.where(raw(x) > 0, raw(x), raw(x) * slope))
    F.one_hot = lambda x, num_classes=-1: Tensor(np.eye(num_classes if num_classes > 0 else int(raw(x).max()) + 1, dtype=np.int64)[raw(x)])
    F.dropout = lambda x, p=0.5, training=True: Dropout()(x) if training else x

    def missing(k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("the stand-in for PyTorch has no torch.nn." + k)
    nn.__getattr__ = F.__getattr__ = missing
    nn.functional = F
    t.nn, t.cuda, t.autograd = nn, cuda, autograd
    optim = _Any("torch.optim")
    t.optim = optim
    mods = {"torch": t, "torch.nn": nn, "torch.nn.functional": F, "torch.autograd": autograd, "torch.cuda": cuda, "torch.optim": optim}
    sk = types.ModuleType("sklearn")
    sku = types.ModuleType("sklearn.utils")
    skc = types.ModuleType("sklearn.utils.class_weight")
    sku.shuffle, skc.compute_class_weight, sku.class_weight, sk.utils = shuffle, compute_class_weight, skc, sku
    ske = types.ModuleType("sklearn_extra")
    skl = types.ModuleType("sklearn_extra.cluster")
    skl.KMedoids, ske.cluster = KMedoids, skl
    mods.update({"sklearn": sk, "sklearn.utils": sku, "sklearn.utils.class_weight": skc, "sklearn_extra": ske, "sklearn_extra.cluster": skl})
    for m in ("matplotlib", "matplotlib.pyplot", "seaborn", "fastprogress", "tsplib95", "tensorboardX"):
        try:
            __import__(m)
        except ImportError:
            mods[m] = _Any(m)
    if "matplotlib" in mods:
        mods["matplotlib"].pyplot = mods["matplotlib.pyplot"]
    sys.modules.update(mods)
    return t
