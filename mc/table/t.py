B = "bounded-exhaustive enumeration of inputs to the real code against an independent reference"
P("T01", "Dates and times agree with the calendar, and read back what they write",
  "Every day of the years 100 to 9999 has one date, whether given by components, number, text or day of the year, and dates count, move and compare as the calendar does; times and moments count seconds likewise, also across midnight and backwards. "
  "What a date, time, month or duration writes reads back as the same. "
  "A text or numbers that name no day or time of the accepted forms are refused, not read as something else.",
  ["inputs"], "every day of 9900 years; every second of a day; all texts up to 6 (7) characters from the time alphabet; all texts within two edits of every accepted form of dates",
  "There are no tests of dates; times are tested on some eighty texts.",
  ["src/eckit/types/Date.cc", "src/eckit/types/Date.h", "src/eckit/types/Time.cc", "src/eckit/types/DateTime.cc", "src/eckit/types/Month.cc", "src/eckit/types/DayOfYear.cc", "src/eckit/types/Hour.cc",
   "src/eckit/types/ClimateDate.cc"],
  [("days and julian numbers", "src/eckit/types/Date.cc"), ("forms of times", "src/eckit/types/Time.cc"), ("moving a moment", "src/eckit/types/DateTime.cc")],
  [dict(name="t01", src=["t01_calendar.cc"])], B,
  "A calendar walked day by day from 2000-01-01; grammars of the accepted forms written from the comments and tests.",
  bound="texts of 6 (7) characters, or two edits")

P("T02", "Fractions, versions, identifiers and fixed strings are exact",
  "Fractions are kept in lowest terms, compare as the numbers they are, and give exactly the result of an operation whenever it can be represented, else one near it or an error; a number or a decimal text becomes the fraction it is. "
  "Versions are three decimal numbers in their order; identifiers and strings of fixed length give back what was put in. "
  "A text that is none of these is refused, and approximate equality holds exactly within the tolerance or number of steps asked for.",
  ["inputs"], "all pairs of 500 fractions of small and extreme parts; all fractions p/q up to 720; all texts up to 5 (6) characters; all versions of twenty kinds of parts; numbers around every landmark of floating point",
  "The tests use a few dozen values, none near the limits of the integers.",
  ["src/eckit/types/Fraction.cc", "src/eckit/types/Fraction.h", "src/eckit/types/SemanticVersion.cc", "src/eckit/types/UUID.cc", "src/eckit/types/FixedString.h", "src/eckit/types/FloatCompare.cc"],
  [("operations", "src/eckit/types/Fraction.cc"), ("version text", "src/eckit/types/SemanticVersion.cc"), ("identifier text", "src/eckit/types/UUID.cc"), ("steps", "src/eckit/types/FloatCompare.cc")],
  [dict(name="t02", src=["t02_values.cc"])], B,
  "128-bit arithmetic; the order of floating point numbers from their representation.",
  bound="500 x 500 fractions; texts of 5 (6) characters")
