package utils

type Comparator func(a, b interface{}) int

func Int64Comparator(a, b interface{}) int {
	x, y := a.(int64), b.(int64)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}
func UInt64Comparator(a, b interface{}) int {
	x, y := a.(uint64), b.(uint64)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}
