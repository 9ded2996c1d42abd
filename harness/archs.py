"""Number of supported layers of each architecture of models.py."""

NLAYERS = {
    "single": 1, "mlp": 2, "mlp3": 3, "seq": 2, "seq4": 2, "conv": 2, "conv2": 2, "conv1": 1, "bnconv": 2, "reuse": 3,
    "branch": 3, "big": 1, "bigconv": 1, "embed": 2, "ckpt": 3, "ckptre": 3, "tiedemb": 2,
    "wide": 1, "seq5": 2, "deep": 11, "wideconv": 1,
}
