SEEDS = {}
SEEDS["B01"] = dict(property="P02", file="torch_harmonics/distributed/distributed_resample.py",
    old="""            x_count = reduce_from_azimuth_region(x_count)
""", new="""            x_count = x_count * self.comm_size_azimuth
""",
    needs="more than one azimuth rank, a longitude count not divisible by it, and an output grid that reaches past the input grid's latitudes",
    breaks="pole values of the distributed resampling are averaged with the wrong count on every rank, so the result differs from the serial layer near the poles",
    demo='''
def fn(rank, rp, ra, npol, naz):
    import torch_harmonics as th, torch_harmonics.distributed as thd
    torch.manual_seed(0)
    x = torch.randn(1, 4, 8, 15)
    args = (8, 15, 16, 30)
    kw = dict(grid_in="legendre-gauss", grid_out="equiangular")
    ref = th.ResampleS2(*args, **kw)(x)
    y = thd.DistributedResampleS2(*args, **kw)(shard(x, -1, naz, ra))
    close(y, shard(ref, -1, naz, ra))


if __name__ == "__main__":
    run_grid(fn, 1, 2)
''')
SEEDS["B02"] = dict(property="P03", file="torch_harmonics/distributed/primitives.py",
    old="""        if is_distributed_polar():
            ctx.dim0_split_sizes = compute_split_shapes(x.shape[dims[0]], polar_group_size())
""", new="""        if is_distributed_polar():
            ctx.dim0_split_sizes = compute_split_shapes(output.shape[dims[0]] * polar_group_size(), polar_group_size())
""",
    needs="a backward pass through a polar transpose whose traded dimension is not divisible by the number of polar ranks",
    breaks="the backward pass of the polar transpose receives chunks of the wrong size, so gradients are misplaced or the collective fails",
    demo='''
def fn(rank, rp, ra, npol, naz):
    import torch_harmonics.distributed as thd
    torch.manual_seed(0)
    full = torch.randn(5, 7, 6)
    x = shard(full, 1, npol, rp).requires_grad_(True)
    y = thd.distributed_transpose_polar(x, (0, 1), thd.compute_split_shapes(7, npol))
    close(y, shard(full, 0, npol, rp))
    g = torch.randn(5, 7, 6)
    y.backward(shard(g, 0, npol, rp))
    close(x.grad, shard(g, 1, npol, rp))


if __name__ == "__main__":
    run_grid(fn, 2, 1)
''')
SEEDS["B03"] = dict(property="P01", file="torch_harmonics/distributed/distributed_sht.py",
    old="""        x, lead_shape, lead_size = flatten_and_pad_leading_dims(x, max(self.comm_size_polar, self.comm_size_azimuth))
        num_chans = x.shape[-3]

        # h and w is split. First we make w local by transposing into channel dim
""", new="""        x, lead_shape, lead_size = flatten_and_pad_leading_dims(x, self.comm_size_azimuth)
        num_chans = x.shape[-3]

        # h and w is split. First we make w local by transposing into channel dim
""",
    needs="fewer leading elements (batch times channels) than polar ranks, and fewer azimuth than polar ranks",
    breaks="the distributed forward transform rejects inputs that the serial transform accepts",
    demo='''
def fn(rank, rp, ra, npol, naz):
    import torch_harmonics as th, torch_harmonics.distributed as thd
    torch.manual_seed(0)
    x = torch.randn(1, 1, 8, 16)
    ref = th.RealSHT(8, 16)(x)
    y = thd.DistributedRealSHT(8, 16)(shard(x, -2, npol, rp))
    close(y, shard(ref, -2, npol, rp))


if __name__ == "__main__":
    run_grid(fn, 2, 1)
''')
SEEDS["B04"] = dict(property="P03", file="torch_harmonics/distributed/primitives.py",
    old="""        slicer[dim_] = slice(0, my_chunk)
""", new="""        slicer[dim_] = slice(max_chunk - my_chunk, max_chunk)
""",
    needs="a reduce-scatter over a dimension that is not divisible by the group size",
    breaks="ranks holding a short chunk of a reduce-scatter get their rows shifted by one with a zero padding row at the end",
    demo='''
def fn(rank, rp, ra, npol, naz):
    import torch_harmonics.distributed as thd
    torch.manual_seed(0)
    xs = [torch.randn(5, 4) for _ in range(npol)]
    y = thd.reduce_from_scatter_to_polar_region(xs[rp], 0)
    close(y, shard(sum(xs), 0, npol, rp))


if __name__ == "__main__":
    run_grid(fn, 2, 1)
''')
SEEDS["B05"] = dict(property="P01", file="torch_harmonics/distributed/distributed_quadrature.py",
    old="""dim=-1, num_chunks=self.comm_size_azimuth)[self.comm_rank_azimuth]
""", new="""dim=-1, num_chunks=self.comm_size_azimuth)[self.comm_rank_polar % self.comm_size_azimuth]
""",
    needs="a longitude count not divisible by the number of azimuth ranks, on a rank whose polar and azimuth positions differ",
    breaks="the rank's slice of the quadrature weights has another size than its slice of the field, so the quadrature fails there",
    demo='''
def fn(rank, rp, ra, npol, naz):
    import torch_harmonics as th, torch_harmonics.distributed as thd
    torch.manual_seed(0)
    x = torch.randn(1, 2, 8, 15)
    ref = th.QuadratureS2((8, 15), normalize=True)(x)
    y = thd.DistributedQuadratureS2((8, 15), normalize=True)(shard(x, -1, naz, ra))
    close(y, ref)


if __name__ == "__main__":
    run_grid(fn, 1, 2)
''')
