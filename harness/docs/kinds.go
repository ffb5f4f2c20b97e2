//go:build go1.21

package docs

import ws "aqwari.net/xml/internal/zzverif/docsws"

var kinds = []kind{
	{"string", func() any { return new(ws.Allstring) }, nil, ""},
	{"anyURI", func() any { return new(ws.AllanyURI) }, nil, ""},
	{"language", func() any { return new(ws.Alllanguage) }, nil, ""},
	{"token", func() any { return new(ws.Alltoken) }, nil, ""},
	{"normalizedString", func() any { return new(ws.AllnormalizedString) }, nil, ""},
	{"NCName", func() any { return new(ws.AllNCName) }, nil, ""},
	{"NMTOKEN", func() any { return new(ws.AllNMTOKEN) }, nil, ""},
	{"Name", func() any { return new(ws.AllName) }, nil, ""},
	{"ID", func() any { return new(ws.AllID) }, nil, ""},
	{"IDREF", func() any { return new(ws.AllIDREF) }, nil, ""},
	{"duration", func() any { return new(ws.Allduration) }, nil, ""},
	{"boolean", func() any { return new(ws.Allboolean) }, []string{"true", "false"}, "false"},
	{"byte", func() any { return new(ws.Allbyte) }, []string{"-128", "127", "0"}, "0"},
	{"short", func() any { return new(ws.Allshort) }, []string{"-32768", "32767", "0"}, "0"},
	{"int", func() any { return new(ws.Allint) }, []string{"-2147483648", "2147483647", "0"}, "0"},
	{"long", func() any { return new(ws.Alllong) }, []string{"-9223372036854775808", "9223372036854775807", "0"}, "0"},
	{"integer", func() any { return new(ws.Allinteger) }, []string{"-5", "1234567890", "0"}, "0"},
	{"negativeInteger", func() any { return new(ws.AllnegativeInteger) }, []string{"-1", "-77"}, "x"},
	{"nonNegativeInteger", func() any { return new(ws.AllnonNegativeInteger) }, []string{"0", "8"}, "0"},
	{"nonPositiveInteger", func() any { return new(ws.AllnonPositiveInteger) }, []string{"0", "-8"}, "0"},
	{"positiveInteger", func() any { return new(ws.AllpositiveInteger) }, []string{"1", "99"}, "x"},
	{"unsignedByte", func() any { return new(ws.AllunsignedByte) }, []string{"255", "7", "0"}, "0"},
	{"unsignedShort", func() any { return new(ws.AllunsignedShort) }, []string{"65535", "0"}, "0"},
	{"unsignedInt", func() any { return new(ws.AllunsignedInt) }, []string{"4294967295", "0"}, "0"},
	{"unsignedLong", func() any { return new(ws.AllunsignedLong) }, []string{"18446744073709551615", "0"}, "0"},
	{"decimal", func() any { return new(ws.Alldecimal) }, []string{"1.5", "-0.25", "0"}, "0"},
	{"float", func() any { return new(ws.Allfloat) }, []string{"1.5", "-0.25", "0"}, "0"},
	{"double", func() any { return new(ws.Alldouble) }, []string{"1.5", "1e+100", "0"}, "0"},
	{"date", func() any { return new(ws.Alldate) }, []string{"2004-02-28Z", "1999-12-31-05:00"}, "x"},
	{"dateTime", func() any { return new(ws.AlldateTime) }, []string{"2004-02-28T00:59:59Z", "1999-12-31T23:00:00.5+01:00"}, "x"},
	{"gDay", func() any { return new(ws.AllgDay) }, []string{"---28Z", "---01+02:00"}, "x"},
	{"gMonth", func() any { return new(ws.AllgMonth) }, []string{"--12Z", "--02-07:30"}, "x"},
	{"gMonthDay", func() any { return new(ws.AllgMonthDay) }, []string{"--12-31Z", "--02-28Z"}, "x"},
	{"gYear", func() any { return new(ws.AllgYear) }, []string{"2004Z", "0033Z"}, "x"},
	{"gYearMonth", func() any { return new(ws.AllgYearMonth) }, []string{"2004-12Z", "1999-01+01:00"}, "x"},
	{"time", func() any { return new(ws.Alltime) }, []string{"00:59:59Z", "23:00:00.25-01:00"}, "x"},
	{"hexBinary", func() any { return new(ws.AllhexBinary) }, []string{"00ff", "7a"}, ""},
	{"base64Binary", func() any { return new(ws.Allbase64Binary) }, []string{"AAEC", "/w=="}, ""},
}
