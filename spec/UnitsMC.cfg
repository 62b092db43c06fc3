SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Nums = {0, 1, 2, 3, 5, 10, 33, 50, 72, 99, 100, 101, 720, 1000} Dens = {1, 2, 3, 4, 10, 100} Refs = {0, 1, 7, 9144000, 12192000, 6858000, 2000000000}
