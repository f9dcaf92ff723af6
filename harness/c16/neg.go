package main

import "math/big"

func neg(v *big.Rat) *big.Rat { return new(big.Rat).Neg(v) }
