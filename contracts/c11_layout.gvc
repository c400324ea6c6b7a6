package ctypes

// ---- the layout rules (System V / LLVM data layout), written independently of the code
only C11,C12
spec roundup(n int, a int) int = ite(n % a == 0, n, n + (a - n % a))
spec imax(a int, b int) int = ite(a < b, b, a)
rec lsize(t Type) int = ite(typeis(t, *Integer), (t.(*Integer).BitSize + 7) / 8,
   ite(typeis(t, *UInteger), (t.(*UInteger).BitSize + 7) / 8,
   ite(typeis(t, *Float), (t.(*Float).BitSize + 7) / 8,
   ite(typeis(t, *Pointer) || typeis(t, *Function), 8,
   ite(typeis(t, *Array), lsize(t.(*Array).Inner) * t.(*Array).Length,
   ite(typeis(t, *Struct), roundup(offs(t.(*Struct).Fields, len(t.(*Struct).Fields)), lalign(t)),
   ite(typeis(t, *Union), roundup(maxsz(t.(*Union).Fields, len(t.(*Union).Fields)), lalign(t)), 0)))))))
rec lalign(t Type) int = ite(typeis(t, *Integer), (t.(*Integer).BitSize + 7) / 8,
   ite(typeis(t, *UInteger), (t.(*UInteger).BitSize + 7) / 8,
   ite(typeis(t, *Float), (t.(*Float).BitSize + 7) / 8,
   ite(typeis(t, *Pointer) || typeis(t, *Function), 8,
   ite(typeis(t, *Array), lalign(t.(*Array).Inner),
   ite(typeis(t, *Struct), maxal(t.(*Struct).Fields, len(t.(*Struct).Fields)),
   ite(typeis(t, *Union), maxal(t.(*Union).Fields, len(t.(*Union).Fields)), 0)))))))
// offset of the end of the first n fields
rec offs(fs []Type, n int) int = ite(n <= 0, 0, roundup(offs(fs, n-1), lalign(fs[n-1])) + lsize(fs[n-1]))
rec maxal(fs []Type, n int) int = ite(n <= 0, 1, imax(maxal(fs, n-1), lalign(fs[n-1])))
rec maxsz(fs []Type, n int) int = ite(n <= 0, 0, imax(maxsz(fs, n-1), lsize(fs[n-1])))

// types whose size is asked for: fully resolved, no void fields
rec sized(t Type) bool = ite(typeis(t, *Integer), t.(*Integer).BitSize >= 1,
   ite(typeis(t, *UInteger), t.(*UInteger).BitSize >= 1,
   ite(typeis(t, *Float), t.(*Float).BitSize >= 1,
   ite(typeis(t, *Pointer) || typeis(t, *Function), true,
   ite(typeis(t, *Array), t.(*Array).Length >= 0 && sized(t.(*Array).Inner),
   ite(typeis(t, *Struct), forall(i, 0, len(t.(*Struct).Fields), sized(t.(*Struct).Fields[i])),
   ite(typeis(t, *Union), forall(i, 0, len(t.(*Union).Fields), sized(t.(*Union).Fields[i])), false)))))))

iface Type.SizeOf(self) (r) C11
requires sized(self)
ensures [size] r == lsize(self)
ensures [nonneg] r >= 0
iface Type.Alignment(self) (r) C11
requires sized(self)
ensures [alignment] r == lalign(self)
ensures [positive] r >= 1

pool (acc phi int64, fs []Type, i phi int)
inv acc == offs(fs, i + 1) && acc >= 0
inv acc == offs(fs, i) && acc >= 0
inv acc == maxal(fs, i + 1) && acc >= 1
inv acc == maxal(fs, i) && acc >= 1
inv acc == maxsz(fs, i + 1) && acc >= 0
inv acc == maxsz(fs, i) && acc >= 0
pool (i phi int, fs slice)
inv i >= -1
inv i >= 0
inv i < len(fs)
inv i <= len(fs)
