/* calls every routine the assembly files export, with all the argument shapes their header allows; compiled and analysed, never run */
#include "KeccakP-400-SnP.h"
typedef unsigned char B;
void isapsa_use(const B *k)
{
  B st[50] __attribute__((aligned(4)));
  B st2[52] __attribute__((aligned(4)));
  B o[50];
  KeccakP400_StaticInitialize();
  KeccakP400_Initialize(st);
  KeccakP400_Initialize(st2);
  KeccakP400_AddByte(st, k[0], 0); KeccakP400_AddByte(st, k[1], 49);
  KeccakP400_AddBytes(st, k, 0, 16); KeccakP400_AddBytes(st, k, 34, 16); KeccakP400_AddBytes(st, k, 3, 7); KeccakP400_AddBytes(st, k, 5, 0); KeccakP400_AddBytes(st, k, 49, 1);
  KeccakP400_Permute_Nrounds(st, 1); KeccakP400_Permute_Nrounds(st, 2); KeccakP400_Permute_Nrounds(st, 8); KeccakP400_Permute_Nrounds(st, 19); KeccakP400_Permute_Nrounds(st, 20);
  KeccakP400_Permute_20rounds(st);
  KeccakP400_OverwriteBytes(st, k, 0, 16); KeccakP400_OverwriteBytes(st, k, 34, 16); KeccakP400_OverwriteBytes(st, k, 3, 7); KeccakP400_OverwriteBytes(st, k, 5, 0);
  KeccakP400_ExtractBytes(st, o, 0, 16); KeccakP400_ExtractBytes(st, o, 34, 16); KeccakP400_ExtractBytes(st, o, 3, 7); KeccakP400_ExtractBytes(st, o, 5, 0);
  KeccakP400_ExtractAndAddBytes(st, k, o, 0, 16); KeccakP400_ExtractAndAddBytes(st, k, o, 34, 16); KeccakP400_ExtractAndAddBytes(st, k, o, 3, 7); KeccakP400_ExtractAndAddBytes(st, k, o, 5, 0);
  KeccakP400_OverwriteWithZeroes(st, 0); KeccakP400_OverwriteWithZeroes(st, 1); KeccakP400_OverwriteWithZeroes(st, 4); KeccakP400_OverwriteWithZeroes(st, 7); KeccakP400_OverwriteWithZeroes(st, 50);
}
