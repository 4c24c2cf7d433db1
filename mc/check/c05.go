package check

import (
	"fmt"
	"math"
	"math/big"
	"time"

	"verif/gen/dep/github.com/mindstand/gotime"

	"verif/gen/bolt/protocol"
	"verif/gen/bolt/structures/messages"
	"verif/gen/bolt/structures/types"
	"verif/mc"
	"verif/ps"
)

// Local time zones the process runs in.
var homeZones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Europe/London", "Australia/Lord_Howe", "Africa/Monrovia", "Pacific/Apia", "America/St_Johns"}

// Zones values are in.
var valueZones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Europe/Dublin", "Australia/Lord_Howe", "Africa/Monrovia", "Pacific/Apia", "Europe/Amsterdam", "America/Sao_Paulo", "Asia/Pyongyang"}

var zones = map[string]*time.Location{}

func zone(name string) *time.Location {
	if l := zones[name]; l != nil {
		return l
	}
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	zones[name] = l
	return l
}

// daysFromCivil is the number of days from 1970-01-01 to the date in the proleptic Gregorian calendar.
func daysFromCivil(y, m, d int) int64 {
	yy, mm := int64(y), int64(m)
	if mm <= 2 {
		yy--
	}
	era := yy / 400
	if yy < 0 && yy%400 != 0 {
		era--
	}
	yoe := yy - era*400
	mp := (mm + 9) % 12
	doy := (153*mp+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

// transitions are the instants at which the zone changes its offset.
func transitions(l *time.Location, from, to int64) []int64 {
	off := func(t int64) int { _, o := time.Unix(t, 0).In(l).Zone(); return o }
	var out []int64
	const step = 20 * 86400
	for t := from; t < to; t += step {
		a, b := t, t+step
		if off(a) == off(b) {
			continue
		}
		for b-a > 1 {
			if m := (a + b) / 2; off(m) == off(t) {
				a = m
			} else {
				b = m
			}
		}
		out = append(out, b)
	}
	return out
}

var instantsOf = map[string][]int64{}

// instants are seconds worth trying in a zone.
func instants(l *time.Location, tier string) []int64 {
	k := fmt.Sprintf("%s %p", tier, l)
	if instantsOf[k] == nil {
		instantsOf[k] = findInstants(l, tier)
	}
	return instantsOf[k]
}

func findInstants(l *time.Location, tier string) []int64 {
	out := []int64{0, -1, 1, 59, 86399, 86400, -86400, -86401, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1 << 33,
		daysFromCivil(1, 1, 1) * 86400, daysFromCivil(1, 1, 1)*86400 - 1, daysFromCivil(-44, 3, 15) * 86400, daysFromCivil(1582, 10, 15)*86400 + 4711,
		daysFromCivil(1677, 9, 21) * 86400, daysFromCivil(1678, 1, 1) * 86400, daysFromCivil(2262, 4, 12) * 86400, daysFromCivil(2263, 1, 1) * 86400,
		daysFromCivil(9999, 12, 31)*86400 + 86399, daysFromCivil(250000, 2, 28) * 86400}
	tr := transitions(l, daysFromCivil(1860, 1, 1)*86400, daysFromCivil(2037, 12, 31)*86400)
	if tier != "thorough" {
		var few []int64
		for i, t := range tr {
			if i < 4 || i >= len(tr)-4 || i%8 == 0 {
				few = append(few, t)
			}
		}
		tr = few
	}
	near := []int64{-7200, -3601, -3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200, 40000, -40000}
	for _, t := range tr {
		for _, d := range near {
			out = append(out, t+d)
		}
	}
	return out
}

var nanosTried = []int64{0, 1, 999999999, 500000000, 1000, 123456789}

func offsetAt(t int64, l *time.Location) int64 {
	_, o := time.Unix(t, 0).In(l).Zone()
	return int64(o)
}

// wallTimes are the instants at which clocks in l show what UTC clocks show at second wall.
func wallTimes(wall int64, l *time.Location) []int64 {
	seen := map[int64]bool{}
	var out []int64
	for d := int64(-30); d <= 30; d++ {
		o := offsetAt(wall+d*3600, l)
		if t := wall - o; offsetAt(t, l) == o && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// wrapAll makes within enumerate.
var wrapAll bool

// within chooses where a value is: bare, within a map and a list, within a message. The quick tier
// goes by the number of choices before, which spreads the three over the values.
func within(x *mc.X) int {
	if wrapAll {
		return x.Choose(3, "in")
	}
	return x.Taken() % 3
}

// wrote is the structure that the driver writes for v.
func wrote(x *mc.X, p protocol.IBoltProtocol, v interface{}, what string) ps.Struct {
	in := within(x)
	var g interface{} = v
	switch in {
	case 1:
		g = map[string]interface{}{"k": []interface{}{v}}
	case 2:
		g = messages.NewRunMessage("q", map[string]interface{}{"p": v})
	}
	b, err := p.Marshal(g)
	x.Check(err == nil, "refused", "%s can not be encoded: %v", what, err)
	ms, _, err := ps.Dechunk(b)
	x.Check(err == nil && len(ms) == 1, "framing", "%s: %v", what, err)
	r, err := ps.Decode(ms[0])
	x.Check(err == nil, "undecodable", "%s: %v: %s", what, err, hexs(ms[0]))
	pick := func(c bool) {
		x.Check(c, "shape", "%s is written as %s", what, ps.String(r))
	}
	switch in {
	case 1:
		mm, ok := r.(map[string]interface{})
		pick(ok)
		l, ok := mm["k"].([]interface{})
		pick(ok && len(l) == 1)
		r = l[0]
	case 2:
		s, ok := r.(ps.Struct)
		pick(ok && len(s.Fields) == 2)
		mm, ok := s.Fields[1].(map[string]interface{})
		pick(ok)
		r = mm["p"]
	}
	s, ok := r.(ps.Struct)
	pick(ok)
	return s
}

// received is what the driver makes of the structure.
func received(x *mc.X, p protocol.IBoltProtocol, s ps.Struct) interface{} {
	in := within(x)
	var m interface{} = s
	switch in {
	case 1:
		m = map[string]interface{}{"k": []interface{}{s}}
	case 2:
		m = ps.S(0x71, []interface{}{s})
	}
	b := ps.Encode(m)
	v, err := p.Unmarshal(ps.Chunk(b, 65535))
	x.Check(err == nil, "not-decoded", "%s is not decoded: %v", ps.String(m), err)
	switch in {
	case 1:
		v = v.(map[string]interface{})["k"].([]interface{})[0]
	case 2:
		v = v.(messages.RecordMessage).Fields[0]
	}
	return v
}

func isInts(x *mc.X, s ps.Struct, tag byte, n int, what string) []int64 {
	x.Check(s.Tag == tag && len(s.Fields) == n, "wrong-structure", "%s is written as %s", what, ps.String(s))
	out := make([]int64, n)
	for i, f := range s.Fields {
		v, ok := f.(int64)
		x.Check(ok, "not-integer", "%s is written as %s: field %d must be an integer", what, ps.String(s), i)
		out[i] = v
	}
	return out
}

// checkDateTimeSent: t is written as a date-time of the same instant and offset.
func checkDateTimeSent(x *mc.X, p protocol.IBoltProtocol, t time.Time, what string) {
	_, off := t.Zone()
	s := wrote(x, p, t, what)
	if s.Tag == 'f' && len(s.Fields) == 3 {
		// with the id of its zone, which has to identify the instant
		sec, _ := s.Fields[0].(int64)
		ns, _ := s.Fields[1].(int64)
		id, _ := s.Fields[2].(string)
		l, err := time.LoadLocation(id)
		x.Check(err == nil && id != "", "wrong-zone", "%s is written as %s", what, ps.String(s))
		ts := wallTimes(sec, l)
		x.Check(len(ts) == 1 && ts[0] == t.Unix() && ns == int64(t.Nanosecond()), "wrong-instant", "%s is written as %s", what, ps.String(s))
		return
	}
	f := isInts(x, s, 'F', 3, what)
	x.Check(f[2] == int64(off), "wrong-offset", "%s (offset %d) is written with offset %d", what, off, f[2])
	x.Check(f[0]-f[2] == t.Unix() && f[1] == int64(t.Nanosecond()), "wrong-instant", "%s (%d s, %d ns) is written as %d s - %d s, %d ns", what, t.Unix(), t.Nanosecond(), f[0], f[2], f[1])
}

func clockNanos(h, m, s, n int) int64 { return (int64(h)*3600+int64(m)*60+int64(s))*1e9 + int64(n) }

func c05(tier string) []mc.Scenario {
	wrapAll = tier == "thorough"
	var out []mc.Scenario
	vers := []int{2, 3, 4}
	add := func(tz string, id string, body func(x *mc.X, p protocol.IBoltProtocol)) {
		for _, ver := range vers {
			ver := ver
			s := plain(fmt.Sprintf("v%d/%s/%s", ver, tz, id), func(x *mc.X) { body(x, protoOf(x, ver)) })
			s.Env = []string{"TZ=" + tz}
			out = append(out, s)
		}
	}
	years := []int{-9999, -4, -1, 0, 1, 1582, 1677, 1678, 1899, 1900, 1969, 1970, 1972, 2000, 2020, 2100, 2262, 2263, 2400, 9999, 99999}
	if tier == "thorough" {
		years = nil
		for y := -500; y < 3000; y++ {
			years = append(years, y)
		}
		years = append(years, -999999, -9999, 9999, 10000, 99999, 999999)
	}
	mlen := func(y, m int) int { return int(daysFromCivil(y+m/12, m%12+1, 1) - daysFromCivil(y, m, 1)) }
	hms := [][3]int{{0, 0, 0}, {0, 0, 1}, {0, 59, 59}, {1, 0, 0}, {1, 30, 0}, {2, 0, 0}, {2, 30, 0}, {3, 0, 0}, {12, 0, 0}, {16, 34, 18}, {23, 0, 1}, {23, 59, 59}}
	offs := []int64{0, 1, -1, 1800, -1800, 3600, -3600, 5*3600 + 1800, -(3*3600 + 1800), 12*3600 + 2700, 14 * 3600, -12 * 3600, 18 * 3600, -18 * 3600, 4*3600 + 32*60 + 36, -2670, 59, -59}

	fixed := make([]*time.Location, len(offs))
	for i, o := range offs {
		fixed[i] = time.FixedZone("", int(o))
	}

	for _, tz := range homeZones {
		tz := tz
		// dates
		add(tz, "date", func(x *mc.X, p protocol.IBoltProtocol) {
			if tier == "thorough" && tz != "UTC" && tz != "Pacific/Apia" {
				return
			}
			y := years[x.Range(len(years), "year")]
			m := 1 + x.Choose(12, "month")
			day := 1 + x.Choose(mlen(y, m), "day")
			days := daysFromCivil(y, m, day)
			what := fmt.Sprintf("date %d-%02d-%02d", y, m, day)
			if x.Bool("receive") {
				v := received(x, p, ps.S('D', days))
				d, ok := v.(gotime.Date)
				x.Check(ok, "wrong-type", "%s is received as %T", what, v)
				x.Check(d.Year() == y && int(d.Month()) == m && d.Day() == day, "wrong-date", "%s (day %d) is received as %d-%02d-%02d", what, days, d.Year(), d.Month(), d.Day())
				f := isInts(x, wrote(x, p, d, what), 'D', 1, what+", sent back")
				x.Check(f[0] == days, "wrong-date", "%s received and sent back: day %d instead of %d", what, f[0], days)
				return
			}
			var d gotime.Date
			switch x.Choose(3, "constructor") {
			case 0:
				d = gotime.NewDate(y, time.Month(m), day)
			case 1:
				d = gotime.NewDateFromTime(time.Date(y, time.Month(m), day, 23, 30, 0, 0, zone("Asia/Kolkata")))
			case 2:
				d = gotime.NewDateFromTime(time.Date(y, time.Month(m), day, 12, 0, 0, 5, time.Local))
			}
			if d.Year() != y || int(d.Month()) != m || d.Day() != day {
				return // the date type itself shows another date, e.g. of a day the zone skipped
			}
			f := isInts(x, wrote(x, p, d, what), 'D', 1, what)
			x.Check(f[0] == days, "wrong-date", "%s is sent as day %d instead of %d", what, f[0], days)
		})
		// times of the day
		add(tz, "localtime", func(x *mc.X, p protocol.IBoltProtocol) {
			c := hms[x.Choose(len(hms), "clock")]
			n := int(nanosTried[x.Choose(len(nanosTried), "nanos")])
			want := clockNanos(c[0], c[1], c[2], n)
			what := fmt.Sprintf("local time %02d:%02d:%02d.%09d", c[0], c[1], c[2], n)
			var lc gotime.LocalClock
			k := x.Choose(4, "how")
			switch k {
			case 0:
				lc = gotime.NewLocalClock(c[0], c[1], c[2], n)
			case 1:
				lc = gotime.NewLocalClockFromTime(time.Date(2021, 7, 15, c[0], c[1], c[2], n, time.Local))
			case 2:
				lc = gotime.NewLocalClockOfDayNano(want)
			case 3:
				v := received(x, p, ps.S('t', want))
				var ok bool
				lc, ok = v.(gotime.LocalClock)
				x.Check(ok, "wrong-type", "%s is received as %T", what, v)
				what += ", received,"
			}
			x.Check(lc.Hour() == c[0] && lc.Minute() == c[1] && lc.Second() == c[2] && lc.Nanosecond() == n, "wrong-time", "%s shows %v", what, lc.GetTime())
			f := isInts(x, wrote(x, p, lc, what), 't', 1, what)
			x.Check(f[0] == want, "wrong-time", "%s is sent as nanosecond %d instead of %d", what, f[0], want)
		})
		add(tz, "time", func(x *mc.X, p protocol.IBoltProtocol) {
			c := hms[x.Choose(len(hms), "clock")]
			n := int(nanosTried[x.Choose(len(nanosTried), "nanos")])
			want := clockNanos(c[0], c[1], c[2], n)
			what := fmt.Sprintf("time %02d:%02d:%02d.%09d", c[0], c[1], c[2], n)
			var cl gotime.Clock
			switch x.Choose(4, "how") {
			case 0:
				i := x.Choose(len(valueZones)+len(offs), "zone")
				var l *time.Location
				if i < len(valueZones) {
					l = zone(valueZones[i])
				} else {
					l = time.FixedZone("", int(offs[i-len(valueZones)]))
				}
				cl = gotime.NewClock(c[0], c[1], c[2], n, l)
				what += " in " + l.String()
			case 1:
				cl = gotime.NewClockOfDayNano(want, time.FixedZone("x", int(offs[x.Choose(len(offs), "zone")])))
			case 2:
				cl = gotime.NewClockFromTime(time.Date(2021, 7, 15, c[0], c[1], c[2], n, time.Local))
			case 3:
				off := offs[x.Choose(len(offs), "zone")]
				v := received(x, p, ps.S('T', want, off))
				var ok bool
				cl, ok = v.(gotime.Clock)
				x.Check(ok, "wrong-type", "%s is received as %T", what, v)
				_, o := cl.GetTime().Zone()
				x.Check(int64(o) == off, "wrong-offset", "%s with offset %d is received with offset %d", what, off, o)
				what += ", received,"
			}
			x.Check(cl.Hour() == c[0] && cl.Minute() == c[1] && cl.Second() == c[2] && cl.Nanosecond() == n, "wrong-time", "%s shows %v", what, cl.GetTime())
			_, o := cl.GetTime().Zone()
			f := isInts(x, wrote(x, p, cl, what), 'T', 2, what)
			x.Check(f[0] == want, "wrong-time", "%s is sent as nanosecond %d instead of %d", what, f[0], want)
			x.Check(f[1] == int64(o), "wrong-offset", "%s has offset %d and is sent with offset %d", what, o, f[1])
		})
		// date-times
		add(tz, "localdatetime", func(x *mc.X, p protocol.IBoltProtocol) {
			in := instants(time.Local, tier)
			t := in[x.Range(len(in), "instant")]
			n := nanosTried[x.Choose(len(nanosTried), "nanos")]
			var lt gotime.LocalTime
			var wall int64
			what := ""
			if x.Bool("receive") {
				wall = t
				what = fmt.Sprintf("local date-time %s in zone %s", time.Unix(t, n).UTC().Format("2006-01-02T15:04:05.999999999"), tz)
				v := received(x, p, ps.S('d', wall, n))
				var ok bool
				lt, ok = v.(gotime.LocalTime)
				x.Check(ok, "wrong-type", "%s is received as %T", what, v)
				if len(wallTimes(wall, time.Local)) == 0 {
					x.Class("clocks skip it")
					return
				}
				u := time.Unix(wall, n).UTC()
				x.Check(lt.Year() == u.Year() && lt.Month() == u.Month() && lt.Day() == u.Day() && lt.Hour() == u.Hour() && lt.Minute() == u.Minute() && lt.Second() == u.Second() && lt.Nanosecond() == u.Nanosecond(),
					"wrong-wall-clock", "%s is received as %v", what, lt.GetTime())
				what += ", received,"
			} else {
				lt = gotime.NewLocalTimeFromTime(time.Unix(t, n).In(zone(valueZones[x.Choose(3, "zone")])))
				wall = t + offsetAt(t, time.Local)
				what = fmt.Sprintf("local date-time %v", lt.GetTime())
			}
			f := isInts(x, wrote(x, p, lt, what), 'd', 2, what)
			x.Check(f[0] == wall && f[1] == n, "wrong-wall-clock", "%s is sent as %d s, %d ns instead of %d s, %d ns", what, f[0], f[1], wall, n)
		})
		add(tz, "datetime", func(x *mc.X, p protocol.IBoltProtocol) {
			i := x.Choose(len(valueZones)+1+len(offs), "zone")
			l := time.Local
			if i > len(valueZones) {
				l = fixed[i-len(valueZones)-1]
			} else if i > 0 {
				l = zone(valueZones[i-1])
			}
			in := instants(l, tier)
			t := in[x.Range(len(in), "instant")]
			n := nanosTried[x.Choose(len(nanosTried), "nanos")]
			tm := time.Unix(t, n).In(l)
			what := fmt.Sprintf("date-time %v", tm)
			switch x.Choose(3, "how") {
			case 0:
				checkDateTimeSent(x, p, tm, what)
			case 1: // with an offset
				off := offsetAt(t, l)
				v := received(x, p, ps.S('F', t+off, n, off))
				r, ok := v.(time.Time)
				x.Check(ok, "wrong-type", "%s is received as %T", what, v)
				_, o := r.Zone()
				x.Check(r.Equal(tm) && int64(o) == off, "wrong-instant", "%s, sent with its offset, is received as %v", what, r)
				checkDateTimeSent(x, p, r, what+", received,")
			case 2: // with a zone
				if i == 0 || i > len(valueZones) {
					return
				}
				wall := t + offsetAt(t, l)
				if x.Bool("as wall clock") {
					wall = t
				}
				v := received(x, p, ps.S('f', wall, n, valueZones[i-1]))
				r, ok := v.(time.Time)
				what := fmt.Sprintf("date-time %s[%s]", time.Unix(wall, n).UTC().Format("2006-01-02T15:04:05.999999999"), valueZones[i-1])
				x.Check(ok, "wrong-type", "%s is received as %T", what, v)
				ts := wallTimes(wall, l)
				if len(ts) == 0 {
					x.Class("clocks skip it")
					return
				}
				x.Class("%d instants", len(ts))
				good := false
				for _, c := range ts {
					good = good || c == r.Unix() && n == int64(r.Nanosecond())
				}
				x.Check(good, "wrong-instant", "%s is received as %v", what, r)
				_, o := r.Zone()
				x.Check(int64(o) == offsetAt(r.Unix(), l), "wrong-offset", "%s is received as %v", what, r)
				checkDateTimeSent(x, p, r, what+", received,")
			}
		})
	}
	// durations and points do not depend on the zone
	nsum := func(a, d, s, n int64) *big.Int {
		t := new(big.Int).Mul(big.NewInt(a*2629746+s), big.NewInt(1e9))
		t.Add(t, new(big.Int).Mul(big.NewInt(d*86400), big.NewInt(1e9)))
		return t.Add(t, big.NewInt(n))
	}
	checkDuration := func(x *mc.X, p protocol.IBoltProtocol, d time.Duration, what string) {
		f := isInts(x, wrote(x, p, d, what), 'E', 4, what)
		x.Check(f[0] == 0, "months", "%s is sent with %d calendar months", what, f[0])
		x.Check(nsum(0, f[1], f[2], f[3]).Cmp(big.NewInt(int64(d))) == 0, "wrong-duration", "%s (%d ns) is sent as %v (months, days, seconds, nanoseconds)", what, int64(d), f)
	}
	var durs []time.Duration
	for _, b := range []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 2600640 * time.Second, 30 * 24 * time.Hour, 365 * 24 * time.Hour, 100 * 365 * 24 * time.Hour, math.MaxInt64} {
		for _, d := range []time.Duration{b, b - 1, b/2 + 1, b / 3} {
			durs = append(durs, d, -d)
		}
		if b < math.MaxInt64/2 {
			durs = append(durs, b+1, -b-1, b+time.Second/2, -b-time.Second/2)
		}
	}
	durs = append(durs, math.MinInt64)
	add("UTC", "duration/send", func(x *mc.X, p protocol.IBoltProtocol) {
		d := durs[x.Range(len(durs), "duration")]
		checkDuration(x, p, d, fmt.Sprintf("duration %v", d))
	})
	dd := []int64{0, 1, -1, 14, 106751, 106752, -106751, -106752, math.MaxInt32}
	ss := []int64{0, 1, -1, 59, 86400, -86401, 9223372036, -9223372036, 9223372037, 1 << 40}
	nn := []int64{0, 1, -1, 999999999, 500000000, -999999999, 854775807, -854775808}
	add("UTC", "duration/receive", func(x *mc.X, p protocol.IBoltProtocol) {
		d, s, n := dd[x.Choose(len(dd), "days")], ss[x.Choose(len(ss), "seconds")], nn[x.Choose(len(nn), "nanos")]
		total := nsum(0, d, s, n)
		what := fmt.Sprintf("duration of %d days, %d s, %d ns", d, s, n)
		st := ps.S('E', int64(0), d, s, n)
		if !total.IsInt64() {
			v, err := p.Unmarshal(ps.Chunk(ps.Encode(st), 65535))
			x.Check(err != nil, "wrong-duration", "%s, which time.Duration can not hold, is received as %v", what, v)
			x.Class("too long")
			return
		}
		v := received(x, p, st)
		g, ok := v.(time.Duration)
		x.Check(ok, "wrong-type", "%s is received as %T", what, v)
		x.Check(int64(g) == total.Int64(), "wrong-duration", "%s is received as %v", what, g)
		checkDuration(x, p, g, what+", received,")
	})
	coords := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e-308, math.MaxFloat64, -180, 180, 12.994823, 55.611996, math.Inf(1), math.SmallestNonzeroFloat64}
	srids := []int{4326, 4979, 7203, 9157, 0, -1, math.MaxInt32, math.MaxInt16 + 1}
	add("UTC", "point", func(x *mc.X, p protocol.IBoltProtocol) {
		srid := srids[x.Choose(len(srids), "srid")]
		a := coords[x.Choose(len(coords), "x")]
		b := coords[x.Choose(len(coords), "y")]
		var v interface{} = types.Point2D{SRID: srid, X: a, Y: b}
		st := ps.S('X', int64(srid), a, b)
		if x.Bool("3D") {
			c := coords[x.Choose(len(coords), "z")]
			v = types.Point3D{SRID: srid, X: a, Y: b, Z: c}
			st = ps.S('Y', int64(srid), a, b, c)
		}
		what := fmt.Sprintf("point %+v", v)
		s := wrote(x, p, v, what)
		x.Check(ps.Equal(s, st), "wrong-point", "%s is sent as %s", what, ps.String(s))
		r := received(x, p, st)
		if pr, ok := r.(*types.Point2D); ok {
			r = *pr
		}
		if pr, ok := r.(*types.Point3D); ok {
			r = *pr
		}
		x.Check(r == v, "wrong-point", "%s is received as %T %+v", what, r, r)
		s = wrote(x, p, received(x, p, st), what)
		x.Check(ps.Equal(s, st), "wrong-point", "%s, received, is sent as %s", what, ps.String(s))
	})
	return out
}

func init() {
	register(&mc.Check{
		Property:    "C05",
		Scenarios:   c05,
		Bounds:      "protocol versions 2 to 4, as a bare value, within a map and a list, and as a query parameter or record field; the process in each of 8 local zones; dates: every day of 21 years from -9999 to 99999 (thorough: of every year from -500 to 3000); times of day: 12 clocks x 6 sub-second parts x 10 zones and 18 offsets from -18:00 to +18:00, with and without seconds; date-times: 14 instants around transitions of 10 zones between 1860 and 2037 (quick: up to 8 + 1/8 of them; thorough: all) and 23 others from 45 BC to the year 250000, x 6 sub-second parts; durations: 100 from 1 ns to 2^63 ns, positive and negative; 720 combinations of received parts; points over 8 reference systems and 13 coordinates",
		Assumptions: []string{"Go's zone database and Zone()/UTC() methods", "wall clock times that a zone skips denote nothing, of those it repeats either instant is accepted", "elapsed time in calendar months is not specified"},
	})
}
