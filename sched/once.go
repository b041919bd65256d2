//go:build go1.21

package zzsync

func OnceValue[T any](f func() T) func() T {
	var v T
	once := OnceFunc(func() { v = f() })
	return func() T { once(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	once := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { once(); return v1, v2 }
}
