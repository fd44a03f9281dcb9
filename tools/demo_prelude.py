import os, sys, tempfile
sys.path.insert(0, os.getcwd())
import torch
import torch.distributed as dist
import torch.multiprocessing as mp


def _all_to_all(outs, ins, group=None, async_op=False):
    """uneven all-to-all (gloo's list version wants equal sizes)"""
    flat = torch.cat([torch.view_as_real(t).reshape(-1) if t.is_complex() else t.reshape(-1) for t in ins])
    k = 2 if ins[0].is_complex() else 1
    osz, isz = [k * t.numel() for t in outs], [k * t.numel() for t in ins]
    buf = torch.empty(sum(osz), dtype=flat.dtype)
    dist.all_to_all_single(buf, flat, osz, isz, group=group)
    for t, c in zip(outs, buf.split(osz)):
        t.copy_(torch.view_as_complex(c.reshape(-1, 2).contiguous()).reshape(t.shape) if t.is_complex() else c.reshape(t.shape))


def _worker(rank, world, npol, naz, path, fn):
    os.environ["GLOO_SOCKET_IFNAME"] = "lo"
    torch.set_num_threads(1)
    dist.all_to_all = _all_to_all
    dist.init_process_group("gloo", init_method="file://" + path, rank=rank, world_size=world)
    import torch_harmonics.distributed as thd
    pol = az = None
    for a in range(naz):
        g = dist.new_group([p * naz + a for p in range(npol)])
        if rank % naz == a:
            pol = g
    for p in range(npol):
        g = dist.new_group([p * naz + a for a in range(naz)])
        if rank // naz == p:
            az = g
    thd.init(pol, az)
    fn(rank, rank // naz, rank % naz, npol, naz)
    dist.barrier()
    dist.destroy_process_group()


def run_grid(fn, npol, naz):
    """run fn(rank, polar rank, azimuth rank, npol, naz) on a process grid; exits 1 if any rank fails"""
    with tempfile.TemporaryDirectory() as d:
        try:
            mp.spawn(_worker, args=(npol * naz, npol, naz, os.path.join(d, "store"), fn), nprocs=npol * naz)
        except Exception as e:
            print("FAIL", str(e)[-300:])
            sys.exit(1)


def shard(x, dim, n, r):
    import torch_harmonics.distributed as thd
    return thd.split_tensor_along_dim(x, dim, n)[r].contiguous()


def close(a, b, tol=1e-4):
    assert a.shape == b.shape, (a.shape, b.shape)
    err = (a - b).abs().max().item() / max(1.0, b.abs().max().item())
    assert err <= tol, "error %g" % err


