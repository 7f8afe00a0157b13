//go:build go1.22 && !verifcore

package main

import (
	"strconv"

	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
)

var moreOps = map[string]fn{
	"daysinmonth": func(a []string) any {
		y, _ := strconv.Atoi(a[0])
		m, _ := strconv.Atoi(a[1])
		return two(calendar.DaysInMonth(y, m))
	},
	"daysinmonthstr": func(a []string) any { return two(calendar.DaysInMonthWithString(a[0])) },
	"span":           func(a []string) any { return two(common.DateSpanFromEDTF(a[0])) },
	"exponent":       func(a []string) any { return two(common.ParseExponentialNotation(a[0])) },
	"strrange":       func(a []string) any { return two(common.StringRangeFromYMD(a[0])) },
	"rangestr": func(a []string) any {
		r, err := common.StringRangeFromYMD(a[0])
		if err != nil {
			return err
		}
		return triple{r.Start.String(), r.End.String(), r.Start.Equals(r.End)}
	},
	"ymd":            func(a []string) any { return two(common.YMDFromString(a[0])) },
	"timeymd":        func(a []string) any { return two(common.TimeWithYMDString(a[0], a[1], a[2], a[3])) },
	"empties": func(a []string) any {
		return pair{triple{common.EmptyDateRange(), common.OpenDateRange(), common.UnknownDateRange()}, triple{common.EmptyDateSpan(), common.OpenDateSpan(), common.UnknownDateSpan()}}
	},
	"flip":     func(a []string) any { y, _ := strconv.Atoi(a[0]); return common.FlipYear(y) },
	"p0date":   p1(level0.ParseDate),
	"p0dt":     p1(level0.ParseDateAndTime),
	"p0int":    p1(level0.ParseTimeInterval),
	"i0date":   b1(level0.IsDate),
	"i0dt":     b1(level0.IsDateAndTime),
	"i0int":    b1(level0.IsTimeInterval),
	"p1letter": p1(level1.ParseLetterPrefixedCalendarYear),
	"p1season": p1(level1.ParseSeason),
	"p1qual":   p1(level1.ParseQualifiedDate),
	"p1unspec": p1(level1.ParseUnspecifiedDigits),
	"p1int":    p1(level1.ParseExtendedInterval),
	"p1ints":   p1(level1.ParseExtendedIntervalStart),
	"p1inte":   p1(level1.ParseExtendedIntervalEnd),
	"p1neg":    p1(level1.ParseNegativeCalendarYear),
	"i1letter": b1(level1.IsLetterPrefixedCalendarYear),
	"i1season": b1(level1.IsSeason),
	"i1qual":   b1(level1.IsQualifiedDate),
	"i1unspec": b1(level1.IsUnspecifiedDigits),
	"i1int":    b1(level1.IsExtendedInterval),
	"i1neg":    b1(level1.IsNegativeCalendarYear),
	"p2exp":    p1(level2.ParseExponentialYear),
	"p2sig":    p1(level2.ParseSignificantDigits),
	"p2sub":    p1(level2.ParseSubYearGroupings),
	"p2set":    p1(level2.ParseSetRepresentations),
	"p2group":  p1(level2.ParseGroupQualification),
	"p2indiv":  p1(level2.ParseIndividualQualification),
	"p2unspec": p1(level2.ParseUnspecifiedDigit),
	"p2int":    p1(level2.ParseInterval),
	"i2exp":    b1(level2.IsExponentialYear),
	"i2sig":    b1(level2.IsSignificantDigits),
	"i2sub":    b1(level2.IsSubYearGrouping),
	"i2set":    b1(level2.IsSetRepresentation),
	"i2group":  b1(level2.IsGroupQualification),
	"i2indiv":  b1(level2.IsIndividualQualification),
	"i2unspec": b1(level2.IsUnspecifiedDigit),
	"i2int":    b1(level2.IsInterval),
}
