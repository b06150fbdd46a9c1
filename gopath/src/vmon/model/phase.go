package model

import "math"

// The true phases of the moon as J. Meeus gives them (Astronomical Algorithms,
// chapter 49), to within a minute of time for the centuries around 2000.

type phaseTerm struct {
	newMoon, full, quarter float64
	ecc                    int // power of the eccentricity's correction
	m, n, f                int // multiples of the sun's and moon's anomaly and the moon's argument of latitude
}

var phaseTerms = []phaseTerm{
	{-0.40720, -0.40614, -0.62801, 0, 0, 1, 0},
	{0.17241, 0.17302, 0.17172, 1, 1, 0, 0},
	{0.01608, 0.01614, 0.00862, 0, 0, 2, 0},
	{0.01039, 0.01043, 0.00804, 0, 0, 0, 2},
	{0.00739, 0.00734, 0.00454, 1, -1, 1, 0},
	{-0.00514, -0.00515, -0.01183, 1, 1, 1, 0},
	{0.00208, 0.00209, 0.00204, 2, 2, 0, 0},
	{-0.00111, -0.00111, -0.00180, 0, 0, 1, -2},
	{-0.00057, -0.00057, -0.00070, 0, 0, 1, 2},
	{0.00056, 0.00056, 0.00027, 1, 1, 2, 0},
	{-0.00042, -0.00042, -0.00040, 0, 0, 3, 0},
	{0.00042, 0.00042, 0.00032, 1, 1, 0, 2},
	{0.00038, 0.00038, 0.00032, 1, 1, 0, -2},
	{-0.00024, -0.00024, -0.00034, 1, -1, 2, 0},
	{-0.00007, -0.00007, -0.00028, 0, 2, 1, 0},
	{0.00004, 0.00004, 0.00002, 0, 0, 2, -2},
	{0.00004, 0.00004, 0.00003, 0, 3, 0, 0},
	{0.00003, 0.00003, 0.00003, 0, 1, 1, -2},
	{0.00003, 0.00003, 0.00004, 0, 0, 2, 2},
	{-0.00003, -0.00003, -0.00004, 0, 1, 1, 2},
	{0.00003, 0.00003, 0.00002, 0, -1, 1, 2},
	{-0.00002, -0.00002, -0.00005, 0, -1, 1, -2},
	{-0.00002, -0.00002, -0.00002, 0, 1, 3, 0},
	{0, 0, 0.00004, 0, -2, 1, 0},
	{0.00002, 0.00002, 0, 0, 0, 4, 0},
}

// planetary: phase at 2000, motion per month, size in millionths of a day
var phasePlanets = [][3]float64{
	{299.77, 0.107408, 325}, {251.88, 0.016321, 165}, {251.83, 26.651886, 164}, {349.42, 36.412478, 126},
	{84.66, 18.206239, 110}, {141.74, 53.303771, 62}, {207.14, 2.453732, 60}, {154.84, 7.306860, 56},
	{34.52, 27.261239, 47}, {207.19, 0.121824, 42}, {291.34, 1.844379, 40}, {161.72, 24.198154, 37},
	{239.56, 25.513099, 35}, {331.55, 3.592518, 23},
}

// TruePhase gives the Julian day of the q-th quarter (0 new .. 3 last quarter) of lunation k since January 2000.
func TruePhase(lunation int64, q int) float64 {
	k := float64(lunation) + float64(q)/4
	t := k / 1236.85
	rad := func(d float64) float64 { return math.Mod(d, 360) * math.Pi / 180 }
	jd := 2451550.09766 + 29.530588861*k + 0.00015437*t*t - 1.5e-7*t*t*t + 7.3e-10*t*t*t*t
	e := 1 - 0.002516*t - 0.0000074*t*t
	m := rad(2.5534 + 29.10535670*k - 0.0000014*t*t - 0.00000011*t*t*t)
	n := rad(201.5643 + 385.81693528*k + 0.0107582*t*t + 0.00001238*t*t*t - 5.8e-8*t*t*t*t)
	f := rad(160.7108 + 390.67050284*k - 0.0016118*t*t - 0.00000227*t*t*t + 1.1e-8*t*t*t*t)
	o := rad(124.7746 - 1.56375588*k + 0.0020672*t*t + 0.00000215*t*t*t)
	c := -0.00017 * math.Sin(o)
	for _, p := range phaseTerms {
		size := p.quarter
		switch q {
		case 0:
			size = p.newMoon
		case 2:
			size = p.full
		}
		c += size * math.Pow(e, float64(p.ecc)) * math.Sin(float64(p.m)*m+float64(p.n)*n+float64(p.f)*f)
	}
	if q == 1 || q == 3 {
		w := 0.00306 - 0.00038*e*math.Cos(m) + 0.00026*math.Cos(n) - 0.00002*math.Cos(n-m) + 0.00002*math.Cos(n+m) + 0.00002*math.Cos(2*f)
		if q == 3 {
			w = -w
		}
		c += w
	}
	for i, p := range phasePlanets {
		a := p[0] + p[1]*k
		if i == 0 {
			a -= 0.009173 * t * t
		}
		c += p[2] * 1e-6 * math.Sin(rad(a))
	}
	return jd + c
}

// NearestPhase gives the distance in days from a Julian day to the nearest true quarter q.
func NearestPhase(jd float64, q int) float64 {
	k := int64(math.Round((jd-2451550.1)/29.530588861 - float64(q)/4))
	best := math.Inf(1)
	for d := int64(-1); d <= 1; d++ {
		if o := jd - TruePhase(k+d, q); math.Abs(o) < math.Abs(best) {
			best = o
		}
	}
	return best
}
