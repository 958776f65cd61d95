// Package civil is calendar arithmetic on integers, independent of package time.
package civil

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// FloorMod is the remainder of the floor division.
func FloorMod(a, b int64) int64 { return a - floorDiv(a, b)*b }

// Days counts the days from 1970-01-01 to the date in the Gregorian calendar.
func Days(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := floorDiv(y, 400)
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

// Date is the inverse of Days.
func Date(z int64) (y, m, d int64) {
	z += 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp%12 + 3
	if m > 12 {
		m -= 12
	}
	if mp >= 10 {
		m = mp - 9
	}
	y = yoe + era*400
	if m <= 2 {
		y++
	}
	return
}

// Day is the number of the day of a Unix time.
func Day(sec int64) int64 { return floorDiv(sec, 86400) }
