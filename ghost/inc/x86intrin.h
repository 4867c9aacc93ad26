/* empty: sljitLir.h includes it, pwart uses no vector intrinsics; keeps verification builds fast */
