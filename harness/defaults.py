"""The documented default of every optional argument, by operation.  A call
marked "short" leaves out the arguments that have the default's value."""

DEFAULTS = {
    "Padder": {"pad_width": 0, "mode": "constant", "constant_values": 0, "end_values": 0, "stat_length": None},
    "SeparablePoolNd": {"stride": None, "same_padder": None},
    "AvgPoolNd": {"stride": None, "count_include_pad": True, "same_padder": None},
    "GaussianPoolNd": {"order": 0, "stride": None, "same_padder": None},
    "EdgeFilter": {"normalize": False, "same_padder": None},
    "GaussianGrad": {"edge_kernel_size": None, "edge_sigma": None, "normalize": True, "edge_order": 1, "same_padder": "reflect"},
    "Laplace": {"same_padder": "reflect"}, "LoG": {"same_padder": "reflect"},
    "UnsharpMask": {"amount": .5, "threshold": 0, "padder": None},
    "MSE": {"reduction": "mean"}, "PSNR": {"max_value": 1, "eps": 0, "reduction": "mean"},
    "SSIM": {"blur": "gaussian", "padder": None, "K1": .01, "K2": .03, "use_sample_covariance": True, "crop_border": True},
    "magnitude": {"epsilon": 0, "p": 2, "axes": None},
    "same_width": {"stride": 1, "in_size": None},
    "to_same": {"stride": 1, "in_shape": None},
    "fmt": {"source": "numpy", "target": "torch", "ndim": None},
    "shape": {"strict": True}, "demosaic": {"clamp": 1}, "spow": {"epsilon": 1e-6},
    "all_components": {"axes": None}, "metric": {"reduce_axes": None},
}
for _c in ("Sobel", "Prewitt", "Scharr", "Farid"):
    DEFAULTS[_c] = {"normalize": False, "same_padder": "reflect"}
DEFAULTS["MS_SSIM"] = dict(DEFAULTS["SSIM"], use_prod=True, eps=1e-8)
