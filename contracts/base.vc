package memcache

// decimal notation of a number: number of digits, and the number without its last k digits
rec declen(n int) int #2 = n < 10 ? 1 : 1 + declen(n / 10)
rec d10(n int, k int) int #2 = k <= 0 ? n : d10(n, k - 1) / 10
pred ddig(n int, k int) int = 48 + d10(n, k) % 10
