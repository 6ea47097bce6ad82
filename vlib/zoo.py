"""Small configurations of every registered model, and positions to feed them."""
import random
import zlib

import numpy as np

SQ = [(n, n) for n in range(7, 11)]
ANY = [(h, w) for h in range(5, 12) for w in range(5, 12)]
S7 = [(7, 7)]
S15 = [(15, 15)]

# name: (model_type, args, board shapes, flags)
#   sparse: sparse_feature_input is read; line: line encoding is read
#   stm: the side to move is an input; mask: padding is masked out
ZOO = {}


def _add(key, model_type, args, shapes, **flags):
    ZOO[key] = (model_type, args, shapes, flags)


_add("linear", "linear", {}, ANY, sparse=True)
_add("linear-two", "linear", dict(two_side=True), ANY, sparse=True)
_add("linear-nodraw", "linear", dict(has_draw_value=False), ANY, sparse=True)
_add("linear-fixed", "linear", dict(fixed_side_input=True), ANY, sparse=True, stm=True)
_add("linear-fixed-nodraw", "linear", dict(fixed_side_input=True, has_draw_value=False, two_side=True), ANY,
     sparse=True, stm=True)
_add("threat", "linear_threat", {}, ANY, sparse=True)
_add("threat-nodraw", "linear_threat", dict(has_draw_value=False), ANY, sparse=True)
_add("p4mlp", "linear_p4countmlp", {}, ANY, sparse=True)
_add("p4mlp-nodraw", "linear_p4countmlp", dict(has_draw_value=False), ANY, sparse=True)
_add("linennue", "linennuev1", dict(dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8), ANY, line=True)
_add("mix6", "mix6", dict(dim_middle=8, dim_policy=8, dim_value=8), ANY)
_add("mix6-stm", "mix6", dict(dim_middle=8, dim_policy=8, dim_value=8, input_type="basic", map_max=0), ANY, stm=True)
_add("mix7", "mix7", dict(dim_middle=8, dim_policy=8, dim_value=8, dim_dwconv=8), ANY)
_add("mix7-stm", "mix7", dict(dim_middle=8, dim_policy=8, dim_value=8, dim_dwconv=8, input_type="basic"), ANY,
     stm=True)
_add("mix8", "mix8", dict(dim_middle=8, dim_policy=8, dim_value=16, dim_value_group=8, dim_dwconv=8), ANY)
_add("mix8-stm", "mix8", dict(dim_middle=8, dim_policy=8, dim_value=16, dim_value_group=8, dim_dwconv=8,
                              input_type="basic"), ANY, stm=True)
_add("mix9", "mix9", dict(dim_middle=8, dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8), ANY)
_add("mix9-one", "mix9", dict(dim_middle=8, dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8,
                              one_mapping=True, use_channel_last=False, no_star_block=True), ANY)
_add("mix9-plain", "mix9", dict(dim_middle=8, dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8,
                                no_dynamic_pwconv=True, no_value_group=True, input_type="basic"), ANY, stm=True)
_add("mix9s", "mix9s", dict(dim_middle=8, dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8), ANY)
_add("mix9s-stm", "mix9s", dict(dim_middle=8, dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8,
                                input_type="basic"), ANY, stm=True)
_add("mix9svq", "mix9svq", dict(dim_middle=8, dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8,
                                codebook_size=8), ANY, vq=True, line=True)
_add("mix9svq-2", "mix9svq", dict(dim_middle=8, dim_feature=16, dim_policy=8, dim_value=8, dim_dwconv=8,
                                  codebook_size=8, num_codebooks=2, use_cosine_sim=True), ANY, vq=True, line=True)
_add("mix10", "mix10", dict(dim_middle=8, dim_feature=32, dim_dwconv=16, dim_value=16), ANY)
_add("mix10-norm", "mix10", dict(dim_middle=8, dim_feature=32, dim_dwconv=16, dim_value=16, mapping_norm="bn",
                                 feature_norm="bn", input_type="basic"), ANY, stm=True)
_add("flat", "flat_nnue_v1", dict(flat_board_size=(6, 7), dim_policy=4, dim_value=8), [(6, 7)])
_add("flat-stm", "flat_nnue_v1", dict(flat_board_size=49, dim_policy=0, dim_value=8, input_type="basic"), S7, stm=True)
_add("ladder1", "flat_ladder7x7_nnue_v1", dict(dim_middle=8, dim_policy=4, dim_value=8), S7)
_add("ladder2", "flat_ladder7x7_nnue_v2", dict(dim_middle=8, dim_policy=0, dim_value=8, value_no_draw=True), S7)
_add("ladder3", "flat_ladder7x7_nnue_v3", dict(dim_middle=8, dim_global_feature=8, dim_conv_feature=8), S7)
_add("pos3x3", "flat_posconv3x3_nnue", dict(dim_middle=8, dim_feature=8), S7)
_add("pos3x4", "flat_posconv3x4_4x3_nnue", dict(dim_middle=8, dim_feature=8), S7)
_add("pos3x4-stride", "flat_posconv3x4_4x3_nnue", dict(dim_middle=8, dim_feature=8, stride_3x4=(2, 3),
                                                       stride_4x3=(3, 2), board_size=(8, 9)), [(8, 9)])
_add("hashconv", "flat_hashconv_nnue", dict(kernel_size=3, hash_logsize=6, dim_feature=8), SQ)
_add("hash7x7", "flat_hash7x7_nnue_v1", dict(hash_logsize=6, dim_feature=8), S7)
_add("hash7x7-sub", "flat_hash7x7_nnue_v1", dict(hash_logsize=6, dim_feature=8, sub_features=2, sub_divisor=2), S7)
_add("square1", "flat_square7x7_nnue_v1", dict(dim_middle=8, dim_feature=8), S7)
_add("square2", "flat_square7x7_nnue_v2", dict(dim_middle=8, dim_feature=8, quant_int4=True), S7)
_add("square3", "flat_square7x7_nnue_v3", dict(dim_middle=8, dim_feature=8, value_no_draw=True), S7)
_add("square4", "flat_square7x7_nnue_v4", dict(dim_middle=8, dim_feature=8), S7)
_add("square4-unit", "flat_square7x7_nnue_v4", dict(dim_middle=8, dim_feature=8, unit_feature_vector=True), S7)
_add("square4vq", "flat_square7x7_nnue_v4_vq", dict(dim_middle=8, dim_feature=8, codebook_size=8), S7, vq=True)
_add("mobile1", "mobilenetv1", dict(num_blocks=1, dim_feature=8), ANY, stm=True)
_add("mobile2", "mobilenetv2", dict(num_blocks=1, dim_feature=8), ANY, stm=True)
_add("mobile2-nostm", "mobilenetv2", dict(num_blocks=1, dim_feature=8, input_type="basicns", expand_ratio=2), ANY)
_add("patbase", "patnetbaseline", dict(dim_policy=4, dim_value=4), S15, sparse=True)
_add("patbase-plain", "patnetbaseline", dict(dim_policy=4, dim_value=4, embedding_type="pcode", map_max=0), ANY,
     sparse=True)
_add("patv1", "patnetv1", dict(dim_policy=4, dim_value=4, embedding_type="pcode-twoside"), ANY, sparse=True)
_add("patv1-board", "patnetv1", dict(dim_policy=4, dim_value=4, embedding_type="pcode-board", board_size=9), [(9, 9)],
     sparse=True)
_add("patbase-outer", "patnetbaseline", dict(dim_policy=4, dim_value=4, embedding_type="pcode-symouterboard",
                                             board_size=11), [(11, 11)], sparse=True)
_add("patv2", "patnetv2", dict(dim_policy=4, dim_value=4), S15, sparse=True)
_add("patnnue1", "patnnuev1", {}, ANY, sparse=True)
_add("patnnue2", "patnnuev2", {}, ANY, sparse=True)
_add("res1", "resnet", dict(num_blocks=1, dim_feature=8), ANY, stm=True)
_add("res1-nodraw", "resnet", dict(num_blocks=1, dim_feature=8, head_type="v0-nodraw", input_type="basicns"), ANY)
_add("res1-pcode", "resnet", dict(num_blocks=1, dim_feature=8, input_type="pcode4"), ANY, sparse=True, stm=True)
_add("res1-combpat", "resnet", dict(num_blocks=1, dim_feature=8, input_type="combpat4-nostm"), ANY, sparse=True)
_add("res1-linepat", "resnet", dict(num_blocks=1, dim_feature=8, input_type="linepat2"), ANY, sparse=True, stm=True)
_add("res2", "resnetv2", dict(num_blocks=1, dim_feature=8), ANY, stm=True)
_add("res2-gn", "resnetv2", dict(num_blocks=1, dim_feature=8, trunk_norm1="gn-2", trunk_norm2="ln"), ANY, stm=True)
_add("res3", "resnetv3", dict(num_blocks=2, dim_feature=8), ANY, stm=True, mask=True)
_add("res3-fixup", "resnetv3", dict(num_blocks=1, dim_feature=8, input_type="maskns", trunk_norm1="mask-affine",
                                    trunk_norm2="mask"), ANY, mask=True)
_add("res3-drop", "resnetv3", dict(num_blocks=1, dim_feature=8, drop_mask=True), ANY, stm=True)

SPARSE_DIMS = [14] * 8 + [14, 14] + [2380, 2380]


def rng(*key):
    return random.Random(zlib.crc32(repr(key).encode()))


def build(key, seed, scale=1.0, training=False):
    """A zoo model whose parameters and statistics are all non-trivial."""
    import torch
    from model import build_model

    model_type, args, _, flags = ZOO[key]
    if flags.get("vq"):
        from vlib import keops
        keops.serialise()
    torch.manual_seed(seed)
    model = build_model(model_type, **args)
    gen = torch.Generator().manual_seed(seed + 1)
    with torch.no_grad():
        for name, p in model.named_parameters():
            if p.ndim <= 1:  # biases, affine norms, prelu slopes
                p.add_(torch.randn(p.shape, generator=gen) * 0.1)
            elif scale != 1.0 and p.is_floating_point():
                p.mul_(scale)
        for name, b in model.named_buffers():
            if name.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=gen) * 0.2)
            elif name.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=gen) + 0.5)
    if flags.get("vq"):
        init_codebooks(model, gen)
    model.train(training)
    return model


def init_codebooks(model, gen):
    """Mark every codebook as initialised, with random codes."""
    import torch
    from model.vq import VectorQuantize

    for module in model.modules():
        if isinstance(module, VectorQuantize):
            with torch.no_grad():
                code = torch.randn(module.embed.shape, generator=gen)
                if module.use_cosine_sim:
                    code = torch.nn.functional.normalize(code, dim=-1)
                module.embed.copy_(code)
                module.embed_avg.copy_(code)
                module.cluster_size.copy_(torch.rand(module.cluster_size.shape, generator=gen) + 0.5)
                module.inited.fill_(True)
                module._inited_python = None
                module._invalidate_dead_code_cache()


def sample(key, seed, shape, stones=None):
    """One sample (numpy fields, no batch axis) with consistent values."""
    _, _, _, flags = ZOO[key]
    r = rng(key, seed, shape)
    h, w = shape
    n = r.randrange(0, h * w * 2 // 3 + 1) if stones is None else stones
    cells = r.sample(range(h * w), n)
    board = np.zeros((2, h * w), dtype=np.int8)
    for i, c in enumerate(cells):
        board[i % 2, c] = 1
    out = dict(
        board_size=np.array([h, w], dtype=np.int8),
        board_input=board.reshape(2, h, w),
        stm_input=np.array([1.0 if r.random() < 0.5 else -1.0], dtype=np.float32),
    )
    nr = np.random.default_rng(r.randrange(2**32))
    if flags.get("sparse"):
        out["sparse_feature_input"] = np.stack(
            [nr.integers(0, d, size=(h, w)) for d in SPARSE_DIMS]).astype(np.int32)
        out["sparse_feature_dim"] = np.array(SPARSE_DIMS, dtype=np.int64)
    if flags.get("line"):
        from dataset.pipeline.line_encoding import LineEncodingPipeline

        code = LineEncodingPipeline().process(out)
        out["line_encoding"] = np.asarray(code["line_encoding"]).astype(np.int64)
        out["line_encoding_total_num"] = np.array([int(np.asarray(code["line_encoding_total_num"]))], dtype=np.int64)
    return out


def pad(s, shape):
    """The sample on a bigger canvas, as the pipeline pads it."""
    out = dict(s)
    h, w = s["board_input"].shape[-2:]
    H, W = shape
    for k in ("board_input", "sparse_feature_input", "line_encoding"):
        if k in s:
            v = s[k]
            new = np.zeros(v.shape[:-2] + (H, W), dtype=v.dtype)
            new[..., :h, :w] = v
            out[k] = new
    return out


def batch(samples):
    import torch

    return {k: torch.from_numpy(np.stack([s[k] for s in samples])) for k in samples[0]}
