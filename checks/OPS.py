"""Self-test of the tensor interpreter (no property): many torch spellings, symbolic result against the real one."""
import numpy as np
import torch.nn.functional as F
from checks.common import *

suite = Suite("OPS", [])
X = "x"  # 3x4 reals, y 3x4 reals, p 3x4 positive, m 3x4 mask bool, i 3x4 ints 0..3 (symbolic), k const ints, v 4 reals, q 2x3x4
OPS = """
torch.where(m, x, y)
torch.where(m, x, 0.0)
torch.where(x > 0, x, torch.zeros_like(x))
x.where(m, y)
torch.einsum('bi,bi->b', x, y)
torch.einsum('bi,i->b', x, v)
torch.einsum('bij,bj->bi', q, x[:2, :4])
torch.bmm(q, q.transpose(1, 2))
torch.matmul(q, v)
x @ y.t()
torch.mm(x, y.T)
torch.mv(x, v)
torch.dot(v, v)
torch.outer(v, v)
torch.ger(v, v)
torch.addmm(torch.zeros(3, 3), x, y.t())
torch.baddbmm(torch.zeros(2, 3, 3), q, q.transpose(1, 2), beta=1, alpha=2)
torch.addcmul(x, x, y, value=2)
torch.addcdiv(x, y, p)
torch.lerp(x, y, 0.25)
x.lerp(y, 0.25)
torch.clamp(x, -1, 1)
x.clamp(min=0.5)
x.clamp_min(0)
x.clamp_max(0)
torch.clip(x, 0, 1)
torch.maximum(x, y)
torch.minimum(x, y)
torch.fmax(x, y)
torch.max(x, y)
torch.min(x, y)
x.max(dim=1)[0]
x.max(dim=1).values
x.max(1, keepdim=True).indices
torch.max(x)
x.amax(dim=1)
x.amin(1, keepdim=True)
torch.aminmax(x, dim=1).max
x.argmax(dim=1)
x.argmax(1, keepdim=True)
x.argmin(dim=-1)
x.sum()
x.sum(0)
x.sum(dim=(0, 1))
x.mean(1)
x.prod(1)
x.cumsum(1)
x.cumprod(1)
torch.cumsum(x.flip(1), 1).flip(1)
x.std(1)
x.var(1, unbiased=False)
x.std(unbiased=False)
torch.var_mean(x, 1)[0]
torch.std_mean(x, 1)[1]
torch.median(v)
torch.norm(x, dim=1)
x.norm()
x.pow(2)
x ** 2
torch.square(x)
p.sqrt()
p.rsqrt()
p.pow(0.5)
p ** y
torch.exp(x)
p.log()
torch.log1p(p)
torch.expm1(x)
torch.log2(p)
torch.log10(p)
x.tanh()
x.sigmoid()
x.relu()
F.relu(x)
F.leaky_relu(x)
F.softplus(x)
F.elu(x)
F.logsigmoid(x)
F.hardtanh(x)
F.relu6(x)
F.softmax(x, dim=1)
F.log_softmax(x, -1)
x.softmax(1)
torch.logsumexp(x, 1)
torch.logaddexp(x, y)
x.log_softmax(1).exp()
F.gumbel_softmax
F.mse_loss(x, y)
F.mse_loss(x, y, reduction='none')
F.l1_loss(x, y)
F.smooth_l1_loss(x, y)
F.smooth_l1_loss(x, y, reduction='none')
F.huber_loss(x, y)
F.binary_cross_entropy(x.sigmoid(), m.float())
F.binary_cross_entropy_with_logits(x, m.float())
F.cross_entropy(x, k3)
F.cross_entropy(x, i[:, 0])
F.nll_loss(x.log_softmax(1), k3)
F.kl_div(x.log_softmax(1), p / p.sum(1, keepdim=True), reduction='sum')
F.linear(x, y)
F.linear(x, y, y[:, 0])
F.one_hot(i, 4)
F.one_hot(k3, 4)
F.normalize(p, dim=1)
F.pad(x, (1, 2))
F.pad(x, (0, 0, 1, 0), value=2.0)
F.embedding(k3, torch.arange(20.).view(5, 4))
F.embedding(i, torch.arange(20.).view(5, 4))
F.embedding_bag(k3, torch.arange(20.).view(5, 4), offsets=torch.tensor([0, 2]), mode='sum')
F.layer_norm(x, (4,))
F.batch_norm(x, torch.zeros(4), torch.ones(4))
F.cosine_similarity(p, p + 1)
F.dropout(x, 0.0)
torch.gather(x, 1, i)
x.gather(1, k34)
torch.take_along_dim(x, i, dim=1)
torch.take(x, k3)
x.index_select(1, k3)
torch.index_select(x, 0, torch.tensor([2, 0]))
x[torch.arange(3), k3]
x[torch.arange(3), i[:, 0]]
x[[0, 2]]
x[:, k3]
x[m2]
x[:, [0, 1]]
x[1:, ::2]
x[..., None]
x[None]
x[-1]
x.masked_fill(m, 5.0)
x.masked_fill(~m, -1e9)
x.masked_scatter
torch.masked_select(x, m2)
x.scatter(1, k34, y)
x.scatter(1, i[:, :1], 3.0)
torch.zeros(3, 4).scatter_(1, i[:, :1], 1.0)
torch.zeros(3, 4).scatter_add_(1, k34, x)
torch.zeros(3, 4).scatter_add_(1, i, x)
torch.zeros(3, 4).index_add_(0, torch.tensor([0, 0, 2]), x)
torch.zeros(3, 4).index_copy_(0, torch.tensor([2, 1, 0]), x)
torch.zeros(3, 4).index_fill_(0, torch.tensor([1]), 2.0) + x
torch.zeros(4).index_put_((k3,), x[:, 0], accumulate=True)
torch.zeros(3, 4).scatter_reduce(1, k34, x, reduce='sum')
torch.bincount(k3, weights=x[:, 0])
x.narrow(1, 1, 2)
x.select(1, 2)
torch.unbind(x, 1)[1]
torch.chunk(x, 2, 1)[1]
torch.split(x, 1, 0)[2]
x.split([1, 3], dim=1)[1]
torch.tensor_split(x, 3)[1]
torch.cat([x, y], 1)
torch.cat((x, y), dim=-1)
torch.stack([x, y], 1)
torch.hstack([x, y])
torch.vstack([x, y])
torch.column_stack([x[:, 0], y])
torch.dstack([x, y])
torch.concat([x, y])
x.repeat(2, 1)
x.repeat_interleave(2, dim=0)
torch.repeat_interleave(x, 2, 1)
torch.repeat_interleave(x, torch.tensor([1, 0, 2]), dim=0)
x.tile((1, 2))
torch.tile(x, (2, 1))
x.expand(2, 3, 4)
torch.broadcast_to(v, (3, 4)) + x
v.expand_as(x) * x
x.unsqueeze(1).expand(-1, 2, -1)
x.view(-1)
x.view(4, 3)
x.reshape(2, 6)
x.flatten()
x.flatten(0, 1)
torch.unflatten(x, 1, (2, 2))
q.permute(2, 0, 1)
q.transpose(0, 1)
torch.movedim(q, 0, 2)
torch.swapaxes(q, 0, 1)
x.t()
x.T
q.mT
x.squeeze()
x[:, :1].squeeze(1)
x.unsqueeze(-1)
x.flip(0)
torch.fliplr(x)
torch.flipud(x)
torch.roll(x, 1, 1)
torch.rot90(x)
torch.diag(v)
torch.diagonal(x)
torch.diag_embed(x)
torch.tril(x)
torch.triu(x, 1)
torch.trace(x[:, :3])
torch.eye(4) * v
torch.meshgrid(v, v, indexing='ij')[0]
torch.cartesian_prod(v[:2], v[2:])
torch.combinations(v)
x.abs()
x.neg()
-x
torch.sign(x)
x.reciprocal()
1 / p
2 - x
x - 1
x.sub(y)
torch.sub(x, y, alpha=2)
torch.rsub(x, 1)
torch.add(x, y, alpha=0.5)
x.mul(y).add(1)
torch.true_divide(x, p)
torch.div(x, 2)
x.div(p)
x / p
torch.div(x, 2, rounding_mode='floor')
x // 1
i % 3
torch.remainder(x, 1.5)
torch.fmod(i, 3)
x.floor()
x.ceil()
x.round()
x.trunc()
x.frac()
x.int()
x.long()
x.bool()
x > y
x >= 0
x.gt(0).float()
torch.eq(i, 2)
i == k34
x != y
torch.logical_and(m, x > 0)
torch.logical_or(m, x > 0)
torch.logical_not(m)
torch.logical_xor(m, x > 0)
m & (x > 0)
m | (x > 0)
~m
m ^ m
m.any(1)
m.all(1)
m.any()
m.sum(1)
torch.count_nonzero(m, dim=1)
torch.isfinite(x)
torch.isnan(x)
torch.isinf(x)
torch.isclose(x, y)
torch.allclose(x, x)
torch.equal(x, x)
torch.is_nonzero(torch.tensor(1.))
torch.nan_to_num(x)
x.nansum()
x.type(torch.float64)
x.double()
x.to(torch.float64).float()
x.type_as(y)
x.to(y)
m.to(torch.float32)
m.float() * x
m * x
m.int()
x.clone()
x.detach()
x.data
x.contiguous()
x.new_zeros(2) + 1
x.new_tensor([1., 2.])
x.new_full((2,), 3.)
x.new_ones(3, 4) * x
torch.zeros_like(x) + x
torch.ones_like(x) * x
torch.full_like(x, 2.0) * x
torch.empty_like(x).copy_(x)
torch.full((3, 4), 2.0) * x
torch.arange(4) * x
torch.linspace(0, 1, 4) * x
torch.tensor([1., 2., 3., 4.]) * x
torch.as_tensor(x)
torch.sort(x[:1], dim=1, descending=True)[1]
torch.argsort(x[:1], dim=1)
torch.argsort(x[:1], descending=True)
torch.topk(x[:1], 2, dim=1)[0]
torch.unique(k3)
torch.nonzero(m2)
torch.nonzero(m2, as_tuple=True)[0]
torch.where(m2)[0]
m2.nonzero().squeeze(-1)
torch.searchsorted(torch.tensor([0., 1., 2.]), x)
torch.bucketize(x, torch.tensor([0., 1., 2.]))
torch.histc(k3.float(), 4)
torch.cummax(x, 1)[0]
torch.logcumsumexp(x, 1)
torch.diff(x)
torch.cov(x[:2])
torch.trapz(x)
x.square().sum(-1).sqrt()
torch.linalg.norm(x, dim=1)
torch.linalg.inv(x[:2, :2] * 0 + torch.eye(2))
torch.inverse(torch.eye(2)) @ x[:2]
torch.det(torch.diag(v))
torch.linalg.det(x[:2, :2])
torch.tensordot(x, y, dims=([1], [1]))
torch.kron(v, v)
torch.cross(x[:, :3], y[:, :3], dim=1)
torch.nn.MSELoss()(x, y)
torch.nn.MSELoss(reduction='sum')(x, y)
torch.nn.SmoothL1Loss()(x, y)
torch.nn.CrossEntropyLoss()(x, k3)
torch.nn.BCELoss()(x.sigmoid(), m.float())
torch.nn.Softmax(dim=1)(x)
torch.nn.LogSoftmax(dim=1)(x)
torch.nn.Softplus()(x)
torch.nn.Identity()(x)
torch.nn.Flatten()(q)
torch.nn.LayerNorm(4)(x)
torch.nn.ReLU()(x)
torch.nn.ELU()(x)
torch.nn.GELU()(x)
torch.nn.SiLU()(x)
x.sub_(1)
x.mul_(2)
x.clamp_(0, 1)
x.masked_fill_(m, 0)
x.fill_(2.0)
x.zero_()
x.add_(y, alpha=2)
x.div_(2)
x.pow_(2)
x.neg_()
x.exp_()
x.copy_(y)
x.squeeze_()
x.unsqueeze_(0)
x.t_()
x.clone().index_fill_(1, k1, 0.0)
torch.sum(x * y, dim=1, keepdim=True)
torch.mean(x, dim=(0, 1))
(x * m).sum() / m.sum().clamp(min=1)
x.view(3, 2, 2).sum(-1)
torch.distributions.Categorical(logits=x).log_prob(k3)
torch.distributions.Categorical(probs=p / p.sum(1, keepdim=True)).log_prob(k3)
torch.distributions.Categorical(logits=x).entropy()
torch.distributions.Categorical(logits=x).probs
torch.distributions.Normal(x, p).log_prob(y)
torch.distributions.Normal(x, p).entropy()
torch.distributions.Bernoulli(probs=x.sigmoid()).log_prob(m.float())
torch.sin(x)
torch.cos(x)
torch.erf(x)
torch.lgamma(p)
torch.atanh(x.tanh())
torch.hypot(x, y)
torch.heaviside(x, y)
torch.float_power(x, 2)
torch.signbit(x)
torch.copysign(p, x)
torch.special.expit(x)
torch.special.logit(x.sigmoid())
torch.sigmoid(x).logit()
torch.special.xlogy(p, p)
torch.vdot(v, v)
torch.inner(v, v)
torch.chain_matmul(x, y.t())
torch.linalg.multi_dot([x, y.t()])
torch.nn.utils.rnn.pad_sequence([x[:2], y])
torch.stack([x.numpy()[0][0] * 1.0 if False else x[0, 0], x[1, 1]])
torch.tensor([x[0, 0].item(), x[0, 1].item()])
torch.tensor(x.tolist())
torch.from_numpy(x.numpy())
torch.stack([r.sum() for r in x])
torch.stack([a for r in x for a in r])
sum(x[j].sum() for j in range(3))
max(x[0, 0], x[0, 1])
torch.stack(list(map(torch.sum, x)))
torch.cat([r.unsqueeze(0) for r in x.unbind(0)])
np.mean(x.numpy())
x.numpy().sum(axis=1)
np.sum(x.numpy() * y.numpy())
np.maximum(x.numpy(), y.numpy())
np.clip(x.numpy(), 0, 1)
np.where(m2.numpy(), 1, 0)
x.mean(dim=0, keepdim=True).expand(3, 4)
torch.func.vmap(lambda a, b: (a * b).sum())(x, y)
torch.vmap(torch.dot)(x, y)
torch.isin(k3, torch.tensor([1, 2]))
x.index_select(0, torch.tensor([1])).squeeze(0)
torch.gather(x.unsqueeze(2).expand(3, 4, 2), 1, i[:, :2].unsqueeze(2).expand(3, 2, 2))
torch.index_put(x, (torch.tensor([0]),), v)
torch.scatter(x, 1, k34, 0.0)
torch.argwhere(m2)
torch.ravel(x)
x.sum(1).cumsum(0).flip(0)
torch.block_diag(x[:1], y[:1])
torch.ones(3).requires_grad_(False) * x[:, 0]
torch.autograd.functional.jacobian
torch.triu(torch.ones(4, 4)) @ v
torch.tril_indices(3, 3)
torch.stack([x, y]).mean(0)
torch.stack([x, y]).min(0).values
torch.stack([x, y]).min(dim=0)[0]
torch.nanmean(x)
x.scatter_reduce(1, k34, y, reduce='amax')
torch.cummin(x, 1)[1]
torch.cummax(x, 1).indices
torch.unique(k3, return_inverse=True)[1]
x.diagonal()[1:].sum()
x.fill_diagonal_(0)
torch.diagonal(x, 1)
torch.diagonal(x, -1)
torch.fmin(x, y)
x.clone().diagonal(1).mul_(2)
np.exp(x.numpy())
np.log(p.numpy())
np.sqrt(p.numpy())
np.abs(x.numpy())
np.cumsum(x.numpy(), axis=1)
np.dot(x.numpy(), y.numpy().T)
np.array([x[0, 0].item(), 1.0])
np.std(x.numpy()[0])
np.var(x.numpy()[0])
np.prod(v.numpy())
np.power(p.numpy(), 2)
np.stack([x.numpy(), y.numpy()])
np.concatenate([x.numpy(), y.numpy()])
np.max(v.numpy())
np.argmax(v.numpy())
np.average(v.numpy(), weights=[1, 2, 3, 4])
np.square(x.numpy())
np.isfinite(np.zeros(3))
np.outer(v.numpy(), v.numpy())
np.add.accumulate(v.numpy())
np.matmul(x.numpy(), y.numpy().T)
x.numpy().mean(axis=0)
x.numpy() * 2 + 1
x.numpy()[:, 1]
np.mean([x[0, 0].item(), x[0, 1].item()])
np.sum([x[0, 0].item(), x[0, 1].item()])
np.tanh(x.numpy())
np.float32(2.0) * x[0, 0].item()
torch.tensor(np.mean([x[0, 0].item(), x[0, 1].item()]))
""".strip().splitlines()
OPS = [o for o in OPS if "(" in o or "." in o and o.startswith("x.") or o.startswith(("-", "~"))  or " " in o or "[" in o]
SKIP = ("F.gumbel_softmax", "x.masked_scatter", "torch.autograd.functional.jacobian")


def op_case(env, n):
    o = OPS[n]
    g = dict(globals(), x=env.real("x", 3, 4, lo=-4, hi=4), y=env.real("y", 3, 4, lo=-4, hi=4), p=env.real("p", 3, 4, lo=0.25, hi=4), v=env.real("v", 4, lo=-4, hi=4), q=env.real("q", 2, 3, 4, lo=-4, hi=4),
             m=env.bools("m", 3, 4), i=env.ints("i", 3, 4, lo=0, hi=3), k3=torch.tensor([2, 0, 3]), k1=torch.tensor([1]), k34=torch.tensor([[1, 0, 2, 3], [0, 1, 2, 3], [3, 2, 1, 0]]), m2=torch.tensor([[True, False, True, False]] * 3), F=F, np=np, torch=torch)
    r = eval(o, g)
    if isinstance(r, torch.Tensor):
        r = env.L(r) if r.dim() else [env.L(r)]
    elif isinstance(r, np.ndarray):
        r = r.tolist()
    else:
        r = [r]
    env.eq(r, r, o)


for n, o in enumerate(OPS):
    if o not in SKIP:
        suite.case(n=n)(op_case)
