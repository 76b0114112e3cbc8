def P(id, title, statement, over, q, why, files, mech, level=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files.split(), mech=mech)
    if na:
        d["na"] = na
    else:
        d["level"] = level
    return d

PYT = "Trusts rustc's MIR, Kani's translation, CBMC and its SAT solver; panics, overflow and assertion failures all count."
PROPS = [
# ---------------------------------------------------------------- common
P("T01", "Time buckets contain their events and line up with the calendar",
  """Truncating an event time to an hour, day, week, month or year gives the start of the calendar unit that contains it: never later than
  the event, on a unit boundary (weeks start on Monday), and the event lies before the next boundary. Truncation is idempotent, keeps order, and
  two times fall into one bucket exactly when they lie in the same calendar unit.""",
  "inputs", "every instant (nanoseconds and leap seconds included) and every unit",
  "the tests sample no boundary instants; the calendar has leap years, ISO weeks and leap seconds that a handful of dates cannot cover",
  "src/common/src/query.rs", [("date_trunc", "src/common/src/query.rs")],
  "Every instant of the years 1600-2400. " + PYT),
P("T02", "A report has exactly one column per time bucket of its range",
  """For a requested range and unit the report's time columns are the starts of all buckets that meet the range, each once, in ascending order, formatted as UTC date-times:
  the first contains the start of the range and the last contains its end, so that every event in the range belongs to exactly one column. A range that ends before it starts has no columns.""",
  "inputs", "every start and end, in either order, and every unit",
  "the tests check no ranges; month lengths, year ends and reversed ranges are unbounded inputs",
  "src/common/src/query.rs src/query/src/event_segmentation.rs", [("time_columns", "src/common/src/query.rs"), ("date_trunc", "src/common/src/query.rs")],
  "Ranges of up to 3 columns of every unit (quick: years 2023-2026, thorough: 1970-2100 with leap seconds). chrono/chronoutil are mirrored with identity shortcuts and a loop-free formatter. " + PYT),
P("T03", "A query's time selection resolves to the range the user asked for",
  """An absolute selection is used as given, an open-ended one ends now, and 'last n units' ends now and starts n units earlier by the calendar (same time of day; the last day of a month that is too short).
  No selection resolves to a range that starts after it ends unless it was given so.""",
  "inputs", "every selection, every n and every current time",
  "no test fixes the clock; calendar subtraction at month and year ends depends on the current instant",
  "src/common/src/query.rs", [("QueryTime::range", "src/common/src/query.rs")],
  "Current times and n within the stated bounds per unit. " + PYT),
P("T04", "Durations and windows mean the same everywhere they are stated",
  """A number of units converts to the same length whether it is given as a session, step or segment window, as a fixed or a calendar duration, and its name round-trips; a window is the
  given number of units, and selections without a window have none.""",
  "inputs", "every count of every unit", "tests convert no durations",
  "src/common/src/query.rs src/common/src/funnel.rs", [("TimeIntervalUnit::duration, relative_duration; SegmentTime::try_window", "src/common/src/query.rs"), ("TimeIntervalUnitSession", "src/common/src/funnel.rs")],
  "Counts up to 10000 units. " + PYT),
P("V01", "Scalar values survive every conversion unchanged",
  """A scalar value converted between the application's own representation and the query engine's comes back as the same value of the same type, nulls included; times and timestamps keep their unit and zone, and text and bytes keep every character.""",
  "inputs", "every value of every scalar type", "the stable tests convert three values of one type",
  "src/common/src/scalar.rs", [("From<ScalarValue>, ScalarValueRef", "src/common/src/scalar.rs")],
  "All values of fixed-width types; text and bytes up to 2-3 bytes. " + PYT),
P("V02", "Property types map to column types, names and tags one to one",
  """Every property type maps to one column type and back to itself, to a short name no other type has, and decimals carry the one precision and scale used everywhere; types without a column type are refused instead of being mapped to another type.""",
  "inputs", "every type, nullable or not, plain or dictionary encoded", "tests name a few types only",
  "src/common/src/types.rs", [("DType conversions, short_name", "src/common/src/types.rs")],
  "All types. " + PYT),
P("V05", "A filter, aggregate or chart setting keeps its meaning through translation",
  """A comparison, aggregate, time unit, query column name or chart setting means the same after each translation between request, planning and engine form: a comparison accepts exactly the same values, and settings that have no equivalent are refused rather than replaced.""",
  "inputs", "every operation and every pair of operands", "the enum tables are long and no test walks them",
  "src/common/src/query.rs src/common/src/event_segmentation.rs src/common/src/funnel.rs", [("Operator / PropValueOperation / AggregateFunction / Query conversions", "src/common/src/query.rs")],
  "All members; operands all pairs of 64-bit integers. " + PYT),
P("U01", "A partial update tells 'absent', 'null' and 'value' apart",
  """An update request's field that is absent leaves the stored value alone, one that is null clears it, one with a value sets it. The states stay distinct through reading, mapping and conversion, and a value that cannot be converted is an error rather than an absent field.""",
  "inputs", "every combination of states and values", "no test enumerates the combinations",
  "src/common/src/types.rs", [("OptionalProperty", "src/common/src/types.rs")],
  "All values of 64-bit payloads. " + PYT),
P("H01", "API errors keep their status, code, message and fields",
  """Every kind of API error answers with the HTTP status of its kind, and adding a message or field details to an error changes nothing else about it.""",
  "inputs", "every error kind, status, code and message", "tests look at single errors",
  "src/common/src/http.rs", [("ApiError", "src/common/src/http.rs")],
  "All statuses; messages up to two characters. " + PYT),
]
NOTYET = "no check built yet"
PROPS += [
P("A01", "A user may do exactly what their roles allow", """A user's organization, project and system roles grant exactly the permissions of the role table, the owner of an account is not locked out of their own organization, and whoever has no role is refused.""",
  "inputs configurations", "every role set and permission", "integration tests use one admin user", "src/platform/src/context.rs src/common/src/rbac.rs", [("Context::check_*", "src/platform/src/context.rs")], na=NOTYET),
]
