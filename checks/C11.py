"""C11: rotary embeddings, spectral transforms, interpolation of the CPU backend."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C11", "random shapes, layouts, views, element types, partial dimensions, FFT sizes, hops, windows, paddings, batches, interpolation modes and sizes through the operators; each element compared with the definition in double precision; "
          "inputs and surroundings of views watched; ASan/UBSan; non-trivial = distinct operator/shape classes",
          ["x86 backend.", "A frame is win_length samples beginning at a multiple of the hop, zero-extended to n_fft (equal to PyTorch for win_length == n_fft); one-sided spectra, not normalised.", "Interpolation: half-pixel centres or aligned corners, edges repeated; bicubic with a = -1/2; antialiasing is a Gaussian of half the larger scale."])


def main():
    b = cpp.Build("C11", san="asan", opt="-O1")
    exe = b.build(cpp.runtime(), ["c11_positions.cpp"], focus=r"ops/(RoPE|MultimodalRoPE|VisionRoPE|STFT|Interpolate)Op|aops/(RoPE|MultimodalRoPE|VisionRoPE|STFT|ISTFT|Interpolate)Op")
    cpp.run(c, exe, timeout=scale(400, 2400), label="positions")
    for k, n in dict(rope=2000, mrope_f32=150, mrope_f16=100, vrope_f32=150, vrope_f16=100, rope_f16=300, rope_views=300, rope_inplace=200, rope_partial=300, stft_batch=200, stft_any=300, stft_pow2=300, stft_short=20,
                     istft_plain=200, istft_center=200, istft_same=200, interp_nearest=300, interp_linear=300, interp_bilinear=300, interp_bicubic=300, interp_trilinear=300, bins=100000).items():
        c.require(k, n)
    c.finish()


run_main(c, main)
