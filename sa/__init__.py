"""Static analysis of rwnobrega/komm: a whole-program abstract interpreter plus property clients."""
