package h

import (
	"time"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/utils"
	"github.com/vanclief/finmod/zzverif/sym"
)

// C26Tick: the time of every candle in the local zone and in others.
//
//verify C26
func C26Tick() {
	offset := sym.Choose("offset", 5)*19800 - 36000
	sym.SetLocalOffset(offset)
	t := sym.I64("time", -4000000000, 8000000000)
	tick := strategy.Tick{Candle: &market.Candle{Time: t}}
	local := tick.GetLocalTime()
	sym.Assert(sym.And(local.Unix() == t, local.Nanosecond() == 0), "local-instant")
	// the clock of the local zone reads the instant plus the offset
	clock := t + int64(offset) + 864000000000
	sym.Assert(sym.And(int64(local.Minute()) == clock/60%60, int64(local.Hour()) == clock/3600%24), "local-clock")
	utc, err := tick.GetLocationTime("UTC")
	sym.Assert(sym.And(err == nil, utc.Unix() == t, utc.Nanosecond() == 0), "location-instant")
	sym.Assert(sym.And(int64(utc.Minute()) == (t+864000000000)/60%60, int64(utc.Hour()) == (t+864000000000)/3600%24), "location-clock")
	here, err := tick.GetLocationTime("Local")
	sym.Assert(sym.And(err == nil, here.Unix() == t, here.Nanosecond() == 0, here.Minute() == local.Minute(), here.Hour() == local.Hour()), "named-local-clock")
	sym.Assert(tick.Candle.Time == t, "candle-unchanged")
}

// C26Unknown: zones that do not exist.
//
//verify C26
func C26Unknown() {
	tick := strategy.Tick{Candle: &market.Candle{Time: sym.I64("time", 0, 4000000000)}}
	names := []string{"Nowhere/Land", "../UTC", "UTCC"}
	got, err := tick.GetLocationTime(names[sym.Choose("name", len(names))])
	sym.Assert(sym.And(err != nil, got.IsZero()), "unknown-zone-reported")
}

// C26Date: every text of the length of a date.
//
//verify C26 qms=8000
func C26Date() {
	text := sym.Text("date", 10, 32, 126)
	got, err := utils.RawDateToRFC3339(text)
	digit := func(i int) bool { return sym.And(text[i] >= '0', text[i] <= '9') }
	shape := sym.And(digit(0), digit(1), digit(2), digit(3), text[4] == '-', digit(5), digit(6), text[7] == '-', digit(8), digit(9))
	if !shape {
		sym.Assert(err != nil, "no-date-rejected")
		return
	}
	num := func(i int) int { return int(text[i] - '0') }
	year := num(0)*1000 + num(1)*100 + num(2)*10 + num(3)
	month := num(5)*10 + num(6)
	day := num(8)*10 + num(9)
	leap := sym.And(year%4 == 0, sym.Or(year%100 != 0, year%400 == 0))
	last := sym.IteI(sym.Or(month == 4, month == 6, month == 9, month == 11), 30, 31)
	last = sym.IteI(month == 2, sym.IteI(leap, 29, 28), last)
	if sym.And(month >= 1, month <= 12, day >= 1, day <= last) {
		sym.Assert(err == nil, "date-accepted")
		// days from March 1, 400 years before year 0, counting months from March
		y := sym.IteI(month <= 2, year+399, year+400)
		m := sym.IteI(month <= 2, month+9, month-3)
		days := 365*y + y/4 - y/100 + y/400 + (153*m+2)/5 + day - 1
		sym.Assert(sym.And(got.Unix() == int64(days-146097-719468)*86400, got.Nanosecond() == 0), "midnight-of-the-date")
		_, offset := got.Zone()
		sym.Assert(offset == 0, "utc")
	} else {
		sym.Assert(err != nil, "no-day-rejected")
	}
}

// C26Short: texts of other lengths.
//
//verify C26 n=14
//verify C26 exact=19
//verify C26 exact=20
//verify C26 exact=25
func C26Short() {
	n := sym.Param("exact", 0)
	if n == 0 {
		n = sym.Choose("n", sym.Param("n", 14)+1)
		sym.Assume(n != 10)
	}
	text := sym.Text("date", n, 32, 126)
	_, err := utils.RawDateToRFC3339(text)
	sym.Assert(err != nil, "other-length-rejected")
}

// C26Zones: the time of every candle in zones with one offset.
//
//verify C26
func C26Zones() {
	sym.SetLocalOffset(19800)
	zones := []struct {
		name   string
		offset int64
	}{{"Asia/Tokyo", 32400}, {"Asia/Kolkata", 19800}, {"Asia/Kathmandu", 20700}, {"America/Phoenix", -25200}, {"Etc/GMT+5", -18000}, {"", 0}}
	z := zones[sym.Choose("zone", len(zones))]
	if _, err := time.LoadLocation(z.name); err != nil {
		return // not in the zone database of this machine
	}
	t := sym.I64("time", 600000000, 4000000000)
	tick := strategy.Tick{Candle: &market.Candle{Time: t}}
	got, err := tick.GetLocationTime(z.name)
	sym.Assert(sym.And(err == nil, got.Unix() == t, got.Nanosecond() == 0), "zone-instant")
	clock := t + z.offset
	sym.Assert(sym.And(int64(got.Hour()) == clock/3600%24, int64(got.Minute()) == clock/60%60, int64(got.Second()) == clock%60), "zone-clock")
	sym.Assert(int64(got.Weekday()) == (clock/86400+4)%7, "zone-weekday")
}

// C26Summer: the time of every candle of a year in a zone with summer time.
//
//verify C26
func C26Summer() {
	if _, err := time.LoadLocation("America/New_York"); err != nil {
		return
	}
	year := int64(2008 + sym.Choose("year", 29))
	// days from 1970 to January 1 and to March 1
	january := 365*(year-1970) + (year-1969)/4
	march := january + 59
	if year%4 == 0 {
		march++
	}
	// the second Sunday of March and the first of November, 245 days later
	begin := (march+(3-march%7+7)%7+7)*86400 + 7*3600
	november := march + 245
	end := (november+(3-november%7+7)%7)*86400 + 6*3600
	t := sym.I64("time", 1199145600, 2145916800)
	sym.Assume(sym.And(t >= january*86400, t < (march+306)*86400))
	tick := strategy.Tick{Candle: &market.Candle{Time: t}}
	got, err := tick.GetLocationTime("America/New_York")
	sym.Assert(sym.And(err == nil, got.Unix() == t, got.Nanosecond() == 0), "summer-instant")
	clock := sym.IteI(sym.And(t >= begin, t < end), int(t)-4*3600, int(t)-5*3600)
	sym.Assert(sym.And(got.Hour() == clock/3600%24, got.Minute() == clock/60%60, got.Second() == clock%60), "summer-clock")
}
