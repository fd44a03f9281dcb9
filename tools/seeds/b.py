SEEDS = {}
SEEDS["B06"] = dict(property="P04", file="torch_harmonics/distributed/primitives.py",
    old="""    # Bypass the function if we are using only 1 GPU.
    if dist.get_world_size(group=group) == 1:
        return input_

    # dist.all_reduce is in-place""", new="""    # Bypass the function if we are using only 1 GPU or there is nothing to contribute.
    if dist.get_world_size(group=group) == 1 or not bool(input_.any()):
        return input_

    # dist.all_reduce is in-place""",
    needs="a reduction in which one rank's local contribution is entirely zero while another rank's is not",
    breaks="the rank with the zero contribution skips the all-reduce its peers are waiting in, and keeps zeros instead of the sum",
    demo='''
def fn(rank, rp, ra, npol, naz):
    import torch_harmonics.distributed as thd
    torch.manual_seed(0)
    xs = [torch.zeros(3, 4), torch.randn(3, 4)]
    y = thd.reduce_from_polar_region(xs[rp])
    close(y, sum(xs))


if __name__ == "__main__":
    run_grid(fn, 2, 1)
''')
SEEDS["B07"] = dict(property="P05", file="torch_harmonics/legendre.py",
    old="""        if inverse:
            vdm = vdm * factor.view(1, -1, 1)
        else:
            vdm = vdm / factor.view(1, -1, 1)
""", new="""        if inverse:
            vdm = vdm / factor.view(1, -1, 1)
        else:
            vdm = vdm * factor.view(1, -1, 1)
""",
    needs="the schmidt normalisation and a look at the coefficients themselves, a round trip hides it",
    breaks="Schmidt semi-normalised coefficients are scaled by 2l+1 (analysis) and its inverse (synthesis)",
    demo='''
if __name__ == "__main__":
    import torch_harmonics as th
    torch.manual_seed(0)
    x = torch.randn(12, 24, dtype=torch.float64)
    a = th.RealSHT(12, 24, norm="ortho").double()(x)
    b = th.RealSHT(12, 24, norm="schmidt").double()(x)
    l = torch.arange(a.shape[-2], dtype=torch.float64).unsqueeze(-1)
    close(b, a * (4 * torch.pi) ** 0.5 / torch.sqrt(2 * l + 1), 1e-8)
''')
SEEDS["B08"] = dict(property="P06", file="torch_harmonics/disco/optimized/disco_optimized.py",
    old="""    grad_output_r = grad_output.reshape(B, G, Og, H, W)

    grad_inp = None
    grad_weight = None

    if ctx.needs_input_grad[0]:
        spatial_first = _use_spatial_first_dgrad(Og, Cg, K, roff_idx, H, split_roff_idx, split_nnz_off)
        if spatial_first:
            grad_inp = _disco_s2_fused_conv_spatial_first_dgrad(
                grad_output_r,
                weight.to(itype),
                split_roff_idx,""", new="""    grad_output_r = grad_output.reshape(B, Og, G, H, W).transpose(1, 2)

    grad_inp = None
    grad_weight = None

    if ctx.needs_input_grad[0]:
        spatial_first = _use_spatial_first_dgrad(Og, Cg, K, roff_idx, H, split_roff_idx, split_nnz_off)
        if spatial_first:
            grad_inp = _disco_s2_fused_conv_spatial_first_dgrad(
                grad_output_r,
                weight.to(itype),
                split_roff_idx,""",
    needs="the fused layer with more than one group and more than one output channel per group, in the backward pass",
    breaks="output channels are assigned to the wrong groups in the backward pass, so input and weight gradients are wrong",
    demo='''
if __name__ == "__main__":
    import torch_harmonics as th
    res = []
    for fused in (False, True):
        torch.manual_seed(0)
        c = th.DiscreteContinuousConvS2(4, 6, (8, 16), (8, 16), 3, groups=2, fused=fused)
        x = torch.randn(2, 4, 8, 16, requires_grad=True)
        y = c(x)
        y.backward(torch.randn(y.shape))
        res.append((y.detach(), x.grad, c.weight.grad))
    for a, b in zip(*res):
        close(a, b)
''')
SEEDS["B09"] = dict(property="P06", file="torch_harmonics/disco/convolution.py",
    old="""        weight_r = self.weight.reshape(self.groups, self.out_per_group, self.weight.shape[1], self.weight.shape[2])
        kpacked_dtype""", new="""        weight_r = self.weight.reshape(self.out_per_group, self.groups, self.weight.shape[1], self.weight.shape[2]).transpose(0, 1).contiguous()
        kpacked_dtype""",
    needs="a convolution with more than one group and more than one output channel per group",
    breaks="grouped convolutions use the weights of other output channels",
    demo='''
if __name__ == "__main__":
    import torch_harmonics as th
    torch.manual_seed(0)
    c = th.DiscreteContinuousConvS2(4, 6, (8, 16), (8, 16), 3, groups=2, bias=False)
    a, b = (th.DiscreteContinuousConvS2(2, 3, (8, 16), (8, 16), 3, bias=False) for _ in range(2))
    with torch.no_grad():
        a.weight.copy_(c.weight[:3])
        b.weight.copy_(c.weight[3:])
    x = torch.randn(2, 4, 8, 16)
    close(c(x), torch.cat([a(x[:, :2]), b(x[:, 2:])], dim=1))
''')
SEEDS["B10"] = dict(property="P07", file="torch_harmonics/filter_basis.py",
    old="""            phin = torch.where(phi + math.pi >= math.pi, phi - math.pi, phi + math.pi)
""", new="""            phin = torch.where(phi + math.pi >= 2 * math.pi, phi - math.pi, phi + math.pi)
""",
    needs="an anisotropic piecewise linear basis with an even number of radial collocation points, evaluated close to the centre",
    breaks="the inner basis functions reach across the centre at the wrong angle",
    demo='''
if __name__ == "__main__":
    import math
    from torch_harmonics.filter_basis import get_filter_basis
    fb = get_filter_basis((2, 3), "piecewise linear")
    phi = torch.linspace(0.05, 6.2, 50, dtype=torch.float64).reshape(1, -1)
    r = torch.full_like(phi, 0.1)
    idx, v = fb.compute_support_vals(r, phi, r_cutoff=1.0)
    d = torch.zeros(3, 1, 50, dtype=torch.float64)
    d[idx[:, 0], idx[:, 1], idx[:, 2]] = v
    dr, dphi = 2.0 / 3, 2 * math.pi / 3
    def hat(x):
        return (1 - x).clamp(min=0)
    for k in range(3):
        c = k * dphi - math.pi
        def ang(p):
            q = torch.remainder(p - c, 2 * math.pi)
            return torch.minimum(q, 2 * math.pi - q)
        ref = hat((r - dr / 2).abs() / dr) * hat(ang(phi) / dphi) + hat((-r - dr / 2).abs() / dr) * hat(ang(phi + math.pi) / dphi)
        close(d[k], ref, 1e-9)
''')
SEEDS["B11"] = dict(property="P07", file="torch_harmonics/filter_basis.py",
    old="""                m = 2 * l - n
                mask.append(m == 0)
""", new="""                m = 2 * l - n
                mask.append(n == 0)
""",
    needs="a Zernike basis of at least three degrees with the modal normalisation",
    breaks="the axisymmetric Zernike functions of degree 2 and more are treated as directional, and their mean is removed",
    demo='''
if __name__ == "__main__":
    from torch_harmonics.filter_basis import get_filter_basis
    fb = get_filter_basis(4, "zernike")
    r = torch.linspace(0.1, 0.9, 5, dtype=torch.float64).reshape(-1, 1).expand(5, 7).contiguous()
    phi = torch.linspace(0.1, 6.0, 7, dtype=torch.float64).reshape(1, -1).expand(5, 7).contiguous()
    idx, v = fb.compute_support_vals(r, phi, r_cutoff=1.0)
    d = torch.zeros(fb.kernel_size, 5, 7, dtype=torch.float64)
    d[idx[:, 0], idx[:, 1], idx[:, 2]] = v
    for k in range(fb.kernel_size):
        const = bool((d[k] - d[k][:, :1]).abs().max() < 1e-9)
        assert const == bool(fb.isotropic_mask[k]), k
''')
