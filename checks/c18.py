"""Encodings of responses say exactly what was answered: one-hot columns, dataset entries, masks and category counts."""
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch import _internal_utils as U
from irtorch import utils as X
from irtorch.irt_dataset import PytorchIRTDataset
from irtorch.models import GeneralizedPartialCredit, TwoParameterLogistic
from irtorch.estimation_algorithms.ae import AE
from .common import Cfg, ref_gpc, responses


def cfg_of(cats):
    return Cfg("x", None, 1, cats)


def onehot(ctx, G, d, w, cats, what):
    n = d.shape[0]
    ctx.prove(G.shape == (n, sum(cats)), f"{what}: one column per item category")
    off = np.cumsum([0] + list(cats))
    for r, i in np.ndindex(n, len(cats)):
        for k in range(cats[i]):
            v = G[r, off[i] + k]
            ctx.eq(v, 0 if w[r, i] else ctx.ite(d[r, i] == k, 1, 0), f"{what}: respondent {r} item {i} column {k} marks exactly the response given", tol=0)


def encode(cats, miss, n, integer=False):
    def f(ctx):
        data, d, w = responses(ctx, cfg_of(cats), n, miss)
        if integer:
            data = data.long()
        onehot(ctx, ctx.vals(U.one_hot_encode_test_data(data, list(cats))), d, w, cats, "one-hot")
    return f


for cats in ([2, 3], [4, 2, 3], [3, 3]):
    for miss in ("nan", "-1"):
        add(f"one_hot/{'-'.join(map(str, cats))}/{miss}", encode(cats, miss, 2 if len(cats) == 2 else 1))
add("one_hot/integer codes", encode([3, 2], "-1", 2, True))
add("one_hot/2-4-3/two", encode([2, 4, 3], "nan", 2), tier="thorough")


def dataset(cats, miss, n, hot, imputation):
    def f(ctx):
        data, d, w = responses(ctx, cfg_of(cats), n, miss)
        ds = PytorchIRTDataset(data, one_hot_encoded=hot, item_categories=list(cats), imputation_method=imputation)
        ctx.prove(len(ds) == n, "one entry per respondent")
        X_, M, I = [], [], []
        for r in range(n):
            a, b, c, j = ds[r]
            ctx.prove(int(j) == r, "each entry says whose it is")
            X_.append(ctx.vals(a)), M.append(ctx.vals(b)), I.append(ctx.vals(c))
        X_, M, I = np.stack(X_), np.stack(M), np.stack(I)
        for ix in np.ndindex(n, len(cats)):
            m = M[ix]
            ctx.prove(m if w[ix] else ctx.not_(m), f"mask {list(ix)} marks missing responses and nothing else")
            if not w[ix]:
                ctx.eq(X_[ix], d[ix], f"observed response {list(ix)} is stored", tol=0)
            else:
                ctx.prove(ctx.or_(ctx.isnan(X_[ix]), X_[ix] == -1), f"missing response {list(ix)} stays missing")
        if imputation == "zero":
            full = np.where(w, 0, d)
            w2 = np.zeros_like(w, dtype=bool)
        else:
            full, w2 = d, w
        if hot:
            onehot(ctx, I, full, w2, cats, "encoder input")
        else:
            for ix in np.ndindex(n, len(cats)):
                if not w2[ix]:
                    ctx.eq(I[ix], full[ix], f"encoder input {list(ix)}", tol=0)
    return f


for miss in ("nan", "-1"):
    add(f"dataset/{miss}/one-hot", dataset([3, 2], miss, 2, True, None))
    add(f"dataset/{miss}/one-hot-zero", dataset([2, 3], miss, 2, True, "zero"))
    add(f"dataset/{miss}/zero", dataset([2, 3], miss, 2, False, "zero"))
    add(f"dataset/{miss}/plain", dataset([2, 3], miss, 2, False, None))


def mask(miss, n=2):
    def f(ctx):
        data, d, w = responses(ctx, cfg_of([3, 2]), n, miss, fork=False)
        M = ctx.vals(U.get_missing_mask(data))
        ctx.prove(M.shape == d.shape, "same shape")
        for ix in np.ndindex(*d.shape):
            ctx.prove(ctx.or_(ctx.and_(M[ix], w[ix]), ctx.and_(ctx.not_(M[ix]), ctx.not_(w[ix]))), f"mask {list(ix)} marks missing responses and nothing else")
    return f


add("mask/nan", mask("nan"))
add("mask/-1", mask("-1"))


def categories(miss, n, cats):
    def f(ctx):
        data, d, w = responses(ctx, cfg_of(cats), n, miss)
        if any(all(w[r, i] for r in range(n)) for i in range(len(cats))):
            return
        got = X.get_item_categories(data)
        ctx.prove(len(got) == len(cats), "one number per item")
        for i in range(len(cats)):
            o = [d[r, i] for r in range(n) if not w[r, i]]
            m = o[0]
            for v in o[1:]:
                m = ctx.max(m, v)
            ctx.eq(got[i], m + 1, f"item {i}: one category more than the highest observed response", tol=0)
    return f


add("categories/nan", categories("nan", 2, [3, 2]))
add("categories/-1", categories("-1", 2, [3, 4]))
add("categories/complete", categories(None, 3, [3, 2]))
add("categories/three", categories("nan", 3, [3, 2]), tier="thorough")
