from vp.api import case

MD = 'fbs.nn.models'
UN = 'fbs.nn.unet'
TOL = dict(rtol=2e-3, atol=1e-3)          # of the concrete evaluations: the networks compute in single precision
TOL_NET = dict(rtol=3e-2, atol=3e-2)


def emb(S, t, half, period=10_000):
    """the embedding of one time (contract of sinusoidal_embedding, C23)"""
    J = S.jnp
    f = J.exp(-J.log(period * 1.) * J.arange(half) / (half - 1))
    return J.concatenate([J.sin(t * f), J.cos(t * f)])


def sub(V, *names):
    p = V()['params']
    for n in names:
        p = p[n]
    return {'params': p}


def layers(S, V, *pre):
    """the layer of the given name, applied with its own parameters"""
    N = S.linen
    dense = lambda name, k: (lambda x: N.Dense(features=k).apply(sub(V, *pre, name), x))
    return dense


def crescent(S, V, x, t, dt, dim, hiddens=(256, 256, 128, 64, 32, 16)):
    """the network at one state and one time"""
    N = S.linen
    dense = layers(S, V)
    e = emb(S, t / dt, 16)
    for i, h in enumerate(hiddens):
        def block(j):
            d = layers(S, V, f'_CrescentTimeBlock_{j}')
            return d('Dense_1', h)(N.gelu(d('Dense_0', h)(e)))
        x = N.gelu(dense(f'Dense_{i}', h)(x) * block(2 * i) + block(2 * i + 1))
    return dense(f'Dense_{len(hiddens)}', dim)(x)


@case('C24', 'crescent-network', targets=[MD + ':CrescentMLP', MD + ':_CrescentTimeBlock'])
def _(S):
    J = S.jnp
    B, d = S.size('B', 2), S.size('d', 2)
    dt = S.real('dt', 'pos')
    x, ts, t, x1 = S.array('x', (B, d)), S.array('ts', (B,)), S.real('t'), S.array('x1', (d,))
    V = S.variables('net', lambda L: L(MD).CrescentMLP(dt, dim=d), lambda: (x, ts))
    net = lambda L: L(MD).CrescentMLP(dt, dim=d)
    S.same('batch', lambda L: net(L).apply(V(L), x, ts), lambda X: X.map(B, lambda b: crescent(S, V, x[b], ts[b], dt, d)), **TOL)
    S.same('one-time', lambda L: net(L).apply(V(L), x, J.asarray(t)), lambda X: X.map(B, lambda b: crescent(S, V, x[b], t, dt, d)), **TOL)
    S.same('single', lambda L: net(L).apply(V(L), x1, J.asarray(t)), lambda X: crescent(S, V, x1, t, dt, d), **TOL)


def gmsb(S, V, x, t, dt, dim):
    N, J = S.linen, S.jnp
    dense = layers(S, V)
    e = N.gelu(dense('Dense_0', 32)(emb(S, t / dt, 16)))
    x = N.gelu(dense('Dense_2', 32)(N.gelu(dense('Dense_1', 16)(x))))
    h = N.gelu(dense('Dense_4', 16)(N.gelu(dense('Dense_3', 64)(J.concatenate([x, e])))))
    return dense('Dense_5', dim)(h)


@case('C24', 'mixture-network', targets=[MD + ':GMSBMLP'])
def _(S):
    J = S.jnp
    B, d = S.size('B', 2), S.size('d', 1)
    dt = S.real('dt', 'pos')
    x, ts, t = S.array('x', (B, d)), S.array('ts', (B,)), S.real('t')
    net = lambda L: L(MD).GMSBMLP(d, dt)
    V = S.variables('net', net, lambda: (x, ts))
    S.same('batch', lambda L: net(L).apply(V(L), x, ts), lambda X: X.map(B, lambda b: gmsb(S, V, x[b], ts[b], dt, d)), **TOL)
    S.same('one-time', lambda L: net(L).apply(V(L), x, J.asarray(t)), lambda X: X.map(B, lambda b: gmsb(S, V, x[b], t, dt, d)), **TOL)
    S.same('default-step', lambda L: L(MD).GMSBMLP(d).apply(V(L), x, ts), lambda X: X.map(B, lambda b: gmsb(S, V, x[b], ts[b], 1., d)), **TOL)


@case('C24', 'residual-layer', targets=[MD + ':_GMSBMLPResBlock'])
def _(S):
    N, J = S.linen, S.jnp
    B, d, e, k = S.size('B', 1), S.size('d', 1), S.size('e', 1), S.size('k', 1)
    x, u = S.array('x', (B, d)), S.array('u', (B, e))
    net = lambda L: L(MD)._GMSBMLPResBlock(k)
    V = S.variables('net', net, lambda: (x, u))

    def spec(X):
        dense = layers(S, V)

        def one(b):
            m = N.gelu(dense('Dense_0', 2 * k)(u[b]))
            h = N.gelu(dense('Dense_1', k)(x[b]))
            h = X.build((k,), lambda i: h[i] * m[i] + m[k + i])
            return N.gelu(dense('Dense_2', k)(h))
        return X.map(B, one)
    S.same('modulated', lambda L: net(L).apply(V(L), x, u), spec, **TOL)


@case('C24', 'down-sampling', targets=[UN + ':Downsample'])
def _(S):
    B, h, w, c, k = S.size('B', 1), S.size('h', 1), S.size('w', 1), S.size('c', 1), S.size('k', 1)
    x = S.array('x', (B, 2 * h, 2 * w, c))
    def variant(tag, dim):
        net = lambda L: L(UN).Downsample(dim)
        V = S.variables('net-' + tag, net, lambda: (x,))

        def spec(X):
            conv = S.linen.Conv(c if dim is None else dim, kernel_size=(4, 4), strides=(2, 2), padding=1)
            return X.map(B, lambda b: conv.apply(sub(V, 'Conv_0'), x[b][None])[0])
        S.same(tag, lambda L: net(L).apply(V(L), x), spec, **TOL)
        S.ensure(tag + '/shape', lambda L: net(L).apply(V(L), x), lambda X, y: y.shape == (B, h, w, c if dim is None else dim))
    for v in (('given', k), ('kept', None)):
        variant(*v)


@case('C24', 'up-sampling', targets=[UN + ':Upsample'])
def _(S):
    J, N = S.jnp, S.linen
    B, h, w, c, k = S.size('B', 1), S.size('h', 1), S.size('w', 1), S.size('c', 1), S.size('k', 1)
    x = S.array('x', (B, h, w, c))
    def variant(tag, dim):
        do = c if dim is None else dim
        net = lambda L: L(UN).Upsample('resize', dim)
        V = S.variables('net-' + tag, net, lambda: (x,))

        def spec(X):
            conv = N.Conv(do, kernel_size=(3, 3), padding=1)
            up = lambda f: S.jax.image.resize(f, (2 * h, 2 * w), 'linear')
            return X.map(B, lambda b: conv.apply(sub(V, 'Conv_0'), X.build((1, 2 * h, 2 * w, c), lambda _, i, j, q: up(x[b, :, :, q])[i, j]))[0])
        S.same('resize-' + tag, lambda L: net(L).apply(V(L), x), spec, **TOL)

        net2 = lambda L: L(UN).Upsample('pixel_shuffle', dim)
        V2 = S.variables('shuffle-' + tag, net2, lambda: (x,))

        def spec2(X):
            c0, c1 = N.Conv(4 * c, kernel_size=(3, 3), padding=1), N.Conv(do, kernel_size=(3, 3), padding=1)

            def one(b):
                y = c0.apply(sub(V2, 'Conv_0'), x[b][None])[0]
                i, j, q = J.arange(2 * h)[:, None, None], J.arange(2 * w)[None, :, None], J.arange(c)[None, None, :]
                up = y[i // 2, j // 2, (2 * (i % 2) + j % 2) * c + q]
                return c1.apply(sub(V2, 'Conv_1'), up[None])[0]
            return X.map(B, one)
        S.same('shuffle-' + tag, lambda L: net2(L).apply(V2(L), x), spec2, **TOL)
    for v in (('given', k), ('kept', None)):
        variant(*v)
    net3 = lambda L: L(UN).Upsample('nearest')
    V = S.variables('none', lambda L: L(UN).Upsample('resize'), lambda: (x,))
    S.raises('unknown', lambda L: net3(L).apply(V(L), x), ValueError)


def std_kernel(S, X, k):
    """the kernel standardised over everything but the output channel"""
    J = S.jnp
    k = k.astype(J.float32)
    a, b, ci, co = k.shape
    n = a * b * ci

    def chan(o):
        m = X.sum(a, lambda i: X.sum(b, lambda j: X.sum(ci, lambda q: k[i, j, q, o]))) / n
        v = X.sum(a, lambda i: X.sum(b, lambda j: X.sum(ci, lambda q: (k[i, j, q, o] - m) ** 2))) / n
        return m, J.sqrt(v + 1e-5)

    def el(i, j, q, o):
        m, s = chan(o)
        return (k[i, j, q, o] - m) / s
    return X.build((a, b, ci, co), el)


@case('C24', 'standardised-convolution', targets=[UN + ':WeightStandardizedConv'])
def _(S):
    B, h, w, c, k = S.size('B', 1), S.size('h', 2), S.size('w', 2), S.size('c', 1), S.size('k', 1)
    x = S.array('x', (B, h, w, c))
    net = lambda L: L(UN).WeightStandardizedConv(k, kernel_size=(3, 3))
    V = S.variables('net', net, lambda: (x,))

    def spec(X):
        p = V()['params']
        kern = std_kernel(S, X, S.param(p, 'kernel', (3, 3, c, k)))
        conv = S.linen.Conv(k, kernel_size=(3, 3), padding=1)
        return X.map(B, lambda b: conv.apply({'params': {'kernel': kern, 'bias': p['bias']}}, x[b][None].astype(S.jnp.float32))[0])
    S.same('kernel', lambda L: net(L).apply(V(L), x), spec, **TOL)


def res_block(S, WS, V, x, e, dim, groups):
    """the block at one state (H, W, C) and one time embedding"""
    N, J = S.linen, S.jnp
    ws = lambda name, f: WS(dim, kernel_size=(3, 3), padding=1).apply(sub(V, name), f[None])[0]
    gn = lambda name, f: N.GroupNorm(num_groups=groups, dtype=J.float32).apply(sub(V, name), f[None])[0]
    m = N.Dense(2 * dim, dtype=J.float32).apply(sub(V, 'time_mlp.dense_0'), N.swish(e))
    h = gn('norm_0', ws('conv_0', x))
    h = N.swish(h * (1 + m[:dim]) + m[dim:])
    return N.swish(gn('norm_1', ws('conv_1', h)))


CONV = lambda self, s, *a: (s[0], s[1], self.features)


@case('C24', 'residual-block', targets=[UN + ':ResnetBlock'])
def _(S):
    N, J = S.linen, S.jnp
    B, h, w, g, c, E = S.size('B', 1), S.size('h', 2), S.size('w', 2), S.size('g', 1), S.size('c', 1), S.size('E', 1)
    WS = S.block(UN + ':WeightStandardizedConv', CONV)
    dim = 2 * g
    e = S.array('e', (B, E))
    def variant(tag, ci):
        x = S.array('x-' + tag, (B, h, w, ci))
        net = lambda L: L(UN).ResnetBlock(dim=dim, groups=2)
        V = S.variables('net-' + tag, net, lambda: (x, e))

        def spec(X):
            def one(b):
                r = res_block(S, WS, V, x[b], e[b], dim, 2)
                if tag == 'same-width':
                    return x[b] + r
                return N.Conv(dim, kernel_size=(1, 1), dtype=J.float32).apply(sub(V, 'res_conv_0'), x[b][None])[0] + r
            return X.map(B, one)
        S.same(tag, lambda L: net(L).apply(V(L), x, e), spec, **TOL)
    for v in (('same-width', dim), ('new-width', 2 * g + c)):
        variant(*v)


def heads_of(S, V, x, hd, dh):
    """queries, keys and values at position (i, j), head m, coordinate d"""
    N = S.linen
    n = hd * dh
    qkv = N.Conv(3 * n, kernel_size=(1, 1), use_bias=False, dtype=S.jnp.float32).apply(sub(V, 'to_qkv.conv_0'), x[None])[0]
    return [lambda i, j, m, d, s=s: qkv[i, j, s * n + m * dh + d] for s in range(3)]


def out_conv(S, V, c, f):
    return S.linen.Conv(c, kernel_size=(1, 1), dtype=S.jnp.float32).apply(sub(V, 'to_out.conv_0'), f[None])[0]


@case('C24', 'attention', targets=[UN + ':Attention', UN + ':l2norm'])
def _(S):
    J = S.jnp
    B, h, w, c = S.size('B', 1), S.size('h', 1, 3), S.size('w', 1, 3), S.size('c', 1, 3)
    hd, dh = S.size('hd', 1, 3), S.size('dh', 1, 3)
    x = S.array('x', (B, h, w, c))
    net = lambda L: L(UN).Attention(heads=hd, dim_head=dh)
    V = S.variables('net', net, lambda: (x,))

    def spec(X):
        def one(b):
            q, k, v = heads_of(S, V, x[b], hd, dh)

            def unit(f):
                """normalised over the positions"""
                def el(i, j, m, d):
                    nrm = J.sqrt(X.sum(h * w, lambda p: f(p // w, p % w, m, d) ** 2))
                    return f(i, j, m, d) / J.maximum(nrm, 1e-12)
                return X.build((h, w, hd, dh), el)
            qn, kn = unit(q), unit(k)

            def weights(i, j, m):
                sim = X.build((h * w,), lambda p: 10 * X.sum(dh, lambda d: qn[i, j, m, d] * kn[p // w, p % w, m, d]))
                return S.jax.nn.softmax(sim)
            val = X.build((h, w, hd, dh), lambda i, j, m, d: X.sum(h * w, lambda p: weights(i, j, m)[p] * v(p // w, p % w, m, d)))
            return out_conv(S, V, c, J.reshape(val, (h, w, hd * dh)))
        return X.map(B, one)
    S.same('averages', lambda L: net(L).apply(V(L), x), spec, **TOL)


@case('C24', 'linear-attention', targets=[UN + ':LinearAttention'])
def _(S):
    J, N = S.jnp, S.linen
    B, h, w, c = S.size('B', 1), S.size('h', 1, 3), S.size('w', 1, 3), S.size('c', 1, 3)
    hd, dh = S.size('hd', 1, 3), S.size('dh', 1, 3)
    x = S.array('x', (B, h, w, c))
    net = lambda L: L(UN).LinearAttention(heads=hd, dim_head=dh)
    V = S.variables('net', net, lambda: (x,))

    def spec(X):
        def one(b):
            q, k, v = heads_of(S, V, x[b], hd, dh)
            sm = S.jax.nn.softmax
            qs = lambda i, j, m, e: sm(X.build((dh,), lambda d: q(i, j, m, d)))[e] / J.sqrt(dh)
            ks = lambda m, d: sm(X.build((h * w,), lambda p: k(p // w, p % w, m, d)))
            ctx = X.build((hd, dh, dh), lambda m, d, e: X.sum(h * w, lambda p: ks(m, d)[p] * (v(p // w, p % w, m, e) / (h * w))))
            val = X.build((h, w, hd, dh), lambda i, j, m, e: X.sum(dh, lambda d: ctx[m, d, e] * qs(i, j, m, d)))
            o = out_conv(S, V, c, J.reshape(val, (h, w, hd * dh)))
            return N.LayerNorm(epsilon=1e-5, use_bias=False, dtype=J.float32).apply(sub(V, 'to_out.norm_0'), o[None])[0]
        return X.map(B, one)
    S.same('averages', lambda L: net(L).apply(V(L), x), spec, **TOL)


@case('C24', 'attention-block', targets=[UN + ':AttnBlock'])
def _(S):
    J, N = S.jnp, S.linen
    B, h, w, c = S.size('B', 1), S.size('h', 1, 3), S.size('w', 1, 3), S.size('c', 1, 3)
    hd, dh = S.size('hd', 1, 3), S.size('dh', 1, 3)
    x = S.array('x', (B, h, w, c))
    same = lambda self, s: s
    A, LA = S.block(UN + ':Attention', same), S.block(UN + ':LinearAttention', same)
    def variant(tag, blk, lin, name):
        net = lambda L: L(UN).AttnBlock(hd, dh, lin)
        V = S.variables('net-' + tag, net, lambda: (x,))

        def spec(X):
            def one(b):
                n = N.LayerNorm(epsilon=1e-5, use_bias=False, dtype=J.float32).apply(sub(V, 'LayerNorm_0'), x[b][None])
                return x[b] + blk(hd, dh).apply(sub(V, name), n)[0]
            return X.map(B, one)
        S.same(tag, lambda L: net(L).apply(V(L), x), spec, **TOL)
    for v in (('linear', LA, True, 'LinearAttention_0'), ('full', A, False, 'Attention_0')):
        variant(*v)


def unet(S, X, blocks, V, x, t, dt, dim, mults, init, out, upsampling):
    """the network at one state (H, W, C) and one time"""
    N, J = S.linen, S.jnp
    Res, Att, Down, Up = blocks
    one = lambda m, name, *a: m.apply(sub(V, name), *[q[None] for q in a])[0]
    conv = lambda name, k, f, x: one(N.Conv(f, kernel_size=(k, k), padding=k // 2, dtype=J.float32), name, x)
    cat = lambda a, b: J.concatenate([a, b], axis=-1)
    e = emb(S, t / dt, dim // 2)
    e = one(N.Dense(4 * dim, dtype=J.float32), 'Dense_0', e)
    e = one(N.Dense(4 * dim, dtype=J.float32), 'Dense_1', N.gelu(e))
    res = lambda name, x, d: one(Res(dim=d, groups=2), name, x, e)
    att = lambda name, x, **k: one(Att(**k), name, x)
    n = len(mults)
    width = [init] + [dim * m for m in mults]            # of the states entering each level of the encoder
    h = first = conv('init.conv_0', 7, init, x)
    skips = []
    for i in range(n):
        a = res(f'ResnetBlock_{2 * i}', h, width[i])
        b = att(f'down_{i}.attnblock_0', res(f'ResnetBlock_{2 * i + 1}', a, width[i]))
        skips.append((a, b))
        h = one(Down(dim=width[i + 1]), f'down_{i}.downsample_0', b) if i < n - 1 else conv(f'down_{i}.conv_0', 3, width[n], b)
    h = res('mid.resblock_0', h, width[n])
    h = att('mid.attenblock_0', h, use_linear_attention=False)
    h = res('mid.resblock_1', h, width[n])
    for i in range(n - 1, -1, -1):
        a, b = skips[i]
        h = res(f'up_{i}.resblock_0', cat(h, b), width[i + 1])
        h = res(f'up_{i}.resblock_1', cat(h, a), width[i + 1])
        h = att(f'up_{i}.attnblock_0', h)
        if i > 0:
            h = one(Up(dim=width[i], method=upsampling), f'up_{i}.upsample_0', h)
    h = conv('up_0.conv_0', 3, init, h)
    h = res('final.resblock_0', cat(h, first), dim)
    return conv('final.conv_0', 1, out, h)


def unet_case(tag, mults, upsampling, init, out, learnt):
    @case('C24', 'unet-' + tag, targets=[UN + ':UNet'], weight=3)
    def _(S):
        J = S.jnp
        B, h, w, c, g = S.size('B', 2, 3), S.size('h', 1, 2), S.size('w', 1, 2), S.size('c', 1, 3), S.size('g', 2, 3)
        dim = 2 * g
        f = 2 ** (len(mults) - 1)
        dt = S.real('dt', 'pos')
        blocks = (S.block(UN + ':ResnetBlock', lambda self, x, e: (x[0], x[1], self.dim)),
                  S.block(UN + ':AttnBlock', lambda self, x: x),
                  S.block(UN + ':Downsample', lambda self, x: (x[0] // 2, x[1] // 2, self.dim)),
                  S.block(UN + ':Upsample', lambda self, x: (x[0] * 2, x[1] * 2, self.dim)))
        x, ts, t = S.array('x', (B, f * h, f * w, c)), S.array('ts', (B,)), S.real('t')
        x1 = S.array('x1', (f * h, f * w, c))
        kw = dict(dim_mults=mults, upsampling=upsampling, resnet_block_groups=2)
        ini = dim
        if init:
            kw['init_dim'] = ini = 4
        od = c
        if learnt:
            kw['learnt_variance'] = True
            od = 2 * c
        if out:
            kw['out_dim'] = od = out
        net = lambda L: L(UN).UNet(dt, dim, **kw)
        V = S.variables('net', net, lambda: (x, ts))
        one = lambda X, x, t: unet(S, X, blocks, V, x, t, dt, dim, mults, ini, od, upsampling)
        S.same('batch', lambda L: net(L).apply(V(L), x, ts), lambda X: X.map(B, lambda b: one(X, x[b], ts[b])), **TOL_NET)
        if tag == 'default':
            return
        S.same('one-time', lambda L: net(L).apply(V(L), x, J.asarray(t)), lambda X: X.map(B, lambda b: one(X, x[b], t)), **TOL_NET)
        S.same('single', lambda L: net(L).apply(V(L), x1, J.asarray(t)), lambda X: one(X, x1, t), **TOL_NET)


unet_case('default', (1, 2, 4), 'resize', None, None, False)
unet_case('shuffle', (1, 2), 'pixel_shuffle', True, None, True)
unet_case('out', (1, 3), 'resize', None, 5, False)
unet_case('one-level', (2,), 'resize', True, None, False)


@case('C24', 'digit-network', targets=[MD + ':MNISTResConv'])
def _(S):
    J, N = S.jnp, S.linen
    B = S.size('B', 2, 3)
    dt = S.real('dt', 'pos')
    x, t = S.array('x', (B, 784)), S.real('t')
    net = lambda L: L(MD).MNISTResConv(dt)
    V = S.variables('net', net, lambda: (x, t))

    def one(X, x):
        conv = lambda i, f, h, s=1: N.Conv(f, kernel_size=(3, 3), strides=(s, s)).apply(sub(V, f'Conv_{i}'), h[None])[0]
        norm = lambda i, h: N.silu(N.GroupNorm(num_groups=8).apply(sub(V, f'GroupNorm_{i}'), h[None])[0])
        dense = lambda i, f, h: N.Dense(f).apply(sub(V, f'Dense_{i}'), h)

        def finer(h, n, c):
            i, j, k = J.arange(n)[:, None, None], J.arange(n)[None, :, None], J.arange(c)[None, None, :]
            return h[i // 2, j // 2, (2 * (i % 2) + j % 2) * c + k]
        h1 = norm(0, conv(0, 32, J.reshape(x, (28, 28, 1))))
        h2 = norm(1, conv(2, 64, conv(1, 32, h1, 2)))
        h = conv(3, 64, h2, 2)
        m = dense(1, 128, N.gelu(dense(0, 64, emb(S, t / dt, 16))))
        h = h * m[:64] + m[64:]
        h = norm(2, conv(5, 64, finer(conv(4, 256, h), 14, 64))) + h2
        h = norm(3, conv(7, 32, finer(conv(6, 128, h), 28, 32))) + h1
        return J.reshape(conv(8, 1, h), (784,))
    S.same('one-time', lambda L: net(L).apply(V(L), x, J.asarray(t)), lambda X: X.map(B, lambda b: one(X, x[b])), **TOL_NET)
