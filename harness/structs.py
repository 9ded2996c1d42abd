"""Names of structures (see tla/Structures.tla) and the real classes."""

import torch

from singd.structures.base import StructuredMatrix
from singd.structures.blockdiagonal import (
    Block3DiagonalMatrix,
    Block30DiagonalMatrix,
    BlockDiagonalMatrixTemplate,
)
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.hierarchical import (
    Hierarchical3_2Matrix,
    Hierarchical15_15Matrix,
    HierarchicalMatrixTemplate,
)
from singd.structures.recursive import (
    RecursiveBottomLeftMatrixTemplate,
    RecursiveTopRightMatrixTemplate,
)
from singd.structures.trilbottomrightdiag import TrilBottomRightDiagonalMatrix
from singd.structures.triltoeplitz import TrilToeplitzMatrix
from singd.structures.triltopleftdiag import TrilTopLeftDiagonalMatrix
from singd.structures.triubottomrightdiag import TriuBottomRightDiagonalMatrix
from singd.structures.triutoeplitz import TriuToeplitzMatrix
from singd.structures.triutopleftdiag import TriuTopLeftDiagonalMatrix

INF = float("inf")


class Block2DiagonalMatrix(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 2


class Hierarchical1_1Matrix(HierarchicalMatrixTemplate):
    MAX_K1 = 1
    MAX_K2 = 1


class RecHierToep(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (4, INF)
    CLS_A = Hierarchical1_1Matrix
    CLS_C = TriuToeplitzMatrix


class _Inner(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (1, INF)
    CLS_A = DenseMatrix
    CLS_C = Block2DiagonalMatrix


class RecRec(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS = (INF, 3)
    CLS_A = DiagonalMatrix
    CLS_C = _Inner


class NaiveBlock2(StructuredMatrix):
    """Implements only what a new structure has to implement."""

    WARN_NAIVE = False

    def __init__(self, mat):
        super().__init__()
        self.register_tensor(mat, "mat")

    @classmethod
    def from_dense(cls, sym_mat):
        i = torch.arange(sym_mat.shape[0]) // 2
        return cls(sym_mat * (i.unsqueeze(0) == i.unsqueeze(1)))

    def to_dense(self):
        return self.mat


CLASSES = {
    "naiveblock2": NaiveBlock2,
    "dense": DenseMatrix,
    "diagonal": DiagonalMatrix,
    "block30diagonal": Block30DiagonalMatrix,
    "block3diagonal": Block3DiagonalMatrix,
    "block2diagonal": Block2DiagonalMatrix,
    "hierarchical15_15": Hierarchical15_15Matrix,
    "hierarchical3_2": Hierarchical3_2Matrix,
    "hierarchical1_1": Hierarchical1_1Matrix,
    "triltoeplitz": TrilToeplitzMatrix,
    "triutoeplitz": TriuToeplitzMatrix,
    "trilbottomrightdiag": TrilBottomRightDiagonalMatrix,
    "triltopleftdiag": TrilTopLeftDiagonalMatrix,
    "triubottomrightdiag": TriuBottomRightDiagonalMatrix,
    "triutopleftdiag": TriuTopLeftDiagonalMatrix,
    "rec_hier_toep": RecHierToep,
    "rec_rec": RecRec,
}
