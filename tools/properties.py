import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs or [],"hook_needed":None}})
PP="src/parser/properties.rs"; PR="src/properties.rs"; PC="src/parser/components.rs"; C="src/components.rs"; CAL="src/calendar.rs"; U="src/parser/utils.rs"; PS="src/parser/parsed_string.rs"; VT="src/value_types.rs"; DT="src/components/date_time.rs"; AL="src/components/alarm.rs"; PCAL="src/parser/calendar.rs"; PA="src/parser/parameters.rs"
p("C01","Any text survives being written and read back",
 "Whatever text is put into a textual property (summary, description, location, names, addresses, comments, or any property declared as text) of a calendar or of a component at any depth, writing the calendar and parsing the result gives exactly the same text back. This includes backslashes in front of any character, commas, semicolons, quotes, line breaks and any Unicode character.",
 ["inputs"],"all texts x all textual properties x all places such a property can stand (calendar, component, nested component, repeated property, single property)",
 "The quantifier is over all strings; the tests try a handful of literals and never an escaped backslash followed by another escapable character, nor escape sequences that straddle a fold.",
 [PR,PS,PP,VT],[("escaping on output",PR+": Property::escape_text / fmt_write"),("unescaping on input",PS+": ParseString::unescape_text"),("which names are text",VT+": ValueType::by_name")],["Calendar Display","Calendar::from_str","Property::value"])
p("C02","Output lines are at most 75 octets and unfold to the unfolded content",
 "Every content line the library writes, from the builder or from a parsed document, is broken with CRLF and a single leading space into physical lines of at most 75 octets, never inside a UTF-8 character, and removing those breaks gives back exactly the unbroken content line. Writing terminates without panicking for every name, parameter and value.",
 ["inputs"],"all properties with any name, parameters and value, of any length and any mix of character widths, written by the builder and by the parsed model",
 "The tests fold five fixed lines and one lorem ipsum text; lengths modulo the fold width, multi-byte characters next to the limit and whitespace runs are a combinatorial space.",
 [PR,PP],[("folding",PR+": fold_line"),("builder output",PR+": Property::fmt_write"),("parsed model output",PP+": Property::fmt_write")],["TryInto<String> for Property","Display of parsed Property and Calendar"])
p("C03","A built calendar comes back complete and in order",
 "Parsing what a calendar was written as yields the same calendar: the same calendar properties in the same order, the same components of the same kinds in the same order at every nesting depth, and for each of them the same properties with the same values and parameters, repeated properties in their order. The only additions are a timestamp and a unique identifier where a component had none.",
 ["inputs"],"all calendars that can be assembled with the builder: events, todos, venues, alarms and other components, nested, with single and repeated properties with parameters",
 "The tests round-trip three fixed calendars; structure (nesting, order, repetition) and content interact in unboundedly many ways.",
 [CAL,"src/calendar/calendar_component.rs",C,"src/components/other.rs",PC,PCAL,PP],[("calendar writer",CAL+": Calendar::fmt_write"),("component writer",C+": Component::fmt_write"),("typed conversion",PC+": From<parser::Component> for InnerComponent / CalendarComponent"),("calendar conversion",PCAL+": From<parser::Calendar> for Calendar")],["Calendar Display","Calendar::from_str","Component accessors"])
p("C04","Reading and writing a foreign calendar is stable",
 "For every well-formed calendar document, reading it into a calendar and writing it gives a document that is read as an equal calendar, apart from timestamps and unique identifiers added where a component had none. Writing that calendar again gives the same content lines, so repeated load-and-save never drifts.",
 ["inputs","histories"],"all well-formed documents from any producer (any layout, casing of names, quoting and escaping choice) and any number of load/save cycles",
 "The tests cycle one generated calendar; foreign documents use escapes, quoting, repeats, casing and layouts the builder never emits.",
 [PP,PS,PC,PR,C],[("decode/encode pair",PS+" and "+PR+": unescape_text / escape_text"),("typed conversion",PC+": From<parser::Component> for InnerComponent")],["Calendar::from_str","Calendar Display"])
p("C05","No input makes reading, inspecting or rewriting panic or crash",
 "For every string whatsoever, each reading entry point returns a value or an error; it never panics, overflows the stack or aborts. The same holds for every accessor, conversion and rewrite applied to whatever was read.",
 ["inputs"],"all UTF-8 strings including random bytes, token soups, damaged calendars, extreme nesting depth and extreme numbers in values; all accessors and conversions on the result",
 "One regression test checks the single input `BEGIN:`; absence of crashes is a statement about every input.",
 ["src/parser/mod.rs",PC,PP,PA,U,PS,DT,AL,CAL],[("total parsers","src/parser/mod.rs: read_calendar / read_components / read_calendar_simple"),("nesting limit",PC+": component"),("fallible conversions",DT+": from_property, TryFrom<&parser::Property>; "+AL+": TryFrom<&Property> for Trigger")],["all parser entry points","all getters"])
p("C06","Well-formed documents are parsed exactly",
 "Every document that follows the content-line grammar is parsed into exactly the components, properties and parameters it contains, in document order: names and values verbatim, parameter values without their quotes, and text values decoded. Names that merely begin with a keyword, values containing separators, and several top-level components are no exception.",
 ["inputs"],"all documents generated from the iCalendar grammar: any nesting, names, parameters (quoted or not, with or without a value), values and decoding choices",
 "The unit tests parse about forty literals; the grammar is recursive and its lexical corner cases combine.",
 [PC,PP,PA,U,PS],[("component parser",PC+": component / components"),("content line parser",PP+": property"),("parameter parser",PA+": parameters"),("key lexer",U+": property_key, valid_key_sequence")],["read_calendar","read_components","read_calendar_simple"])
p("C07","Line folding, line endings and blank lines do not change the meaning",
 "Two documents that differ only in where lines are folded (with space or tab, even inside names or escape sequences), in using CRLF, LF or a mixture, in blank lines between content lines, or in the final line ending are read as equal calendars.",
 ["inputs"],"all documents x all pairs of layouts",
 "The tests cover a few fixed folds with uniform line endings; the layouts of a single document alone are exponentially many.",
 [U,PP,PC,PCAL],[("unfolding",U+": unfold"),("line separation",U+": line, line_separated"),("value end",PP+": property")],["Calendar::from_str","read_calendar(unfold(..))"])
p("C08","Damaged documents are rejected, never silently shortened",
 "A document that is cut off, lacks or mixes up BEGIN or END lines, contains a line that is no content line, or carries other text around its components is reported as an error. Reading never succeeds with components or properties missing.",
 ["inputs","fault_sequences"],"all well-formed documents x every truncation point, every removed or altered BEGIN/END line, every position of an unreadable line, any leading or trailing junk",
 "One test has a mismatching END line; the fault can be at any position of any document, and success with an empty result looks like success to a test that only asserts Ok.",
 [PC,"src/parser/mod.rs",PP],[("whole input must be consumed",PC+": components"),("begin/end matching",PC+": component")],["read_components","read_calendar","Calendar::from_str"])
p("C09","Unfolding removes exactly the fold marks",
 "Unfolding any text removes every line break that is directly followed by a space or a tab, together with that one character, and nothing else. Folding that was inserted at any places is thereby undone completely.",
 ["inputs"],"all strings, with any mixture of CR, LF, spaces and tabs; all fold positions",
 "Three fixed examples exist; adjacency of line breaks and blanks is what goes wrong and is not enumerated.",
 [U],[("unfolding",U+": unfold")],["parser::unfold"])
p("C10","All occurrences of a repeated property are kept, in order",
 "When a document contains a property several times in a component, the typed component holds every occurrence with its value and parameters in document order, whatever the property's name. Properties the standard allows to repeat in events, to-dos, journals and free/busy components (attachments, attendees, categories, comments, contacts, exception and recurrence dates, free/busy times, relations, request statuses, resources) are all found in the list of repeated properties, and everything is written out again.",
 ["inputs"],"all components with any number of repetitions of standard, extension and unknown properties, at any depth",
 "One test has two attendees; loss only shows with repeats of other names or with particular interleavings.",
 [PC,PP,C],[("collecting repeats",PC+": From<parser::Component> for InnerComponent"),("names that may repeat",PP+": MULTIS"),("storing repeats",C+": InnerComponent::insert_multi")],["Component::properties","Component::multi_properties","Component Display"])
p("C11","A parsed document is rewritten without change",
 "Writing the parsed model of any well-formed document and parsing the result gives an equal model: the same tree of components, property order, parameters and values, with the elements of list-valued texts (categories, resources, request status) still separate. What is written is itself well-formed, and writing it once more gives identical bytes.",
 ["inputs"],"all well-formed documents, including encoded text values and quoted parameter values",
 "One test rewrites one document without any escape sequence or quoted parameter.",
 [PCAL,PC,PP],[("model writer",PC+": LikeComponent::fmt_write"),("property writer",PP+": Property::fmt_write")],["Display of parsed Calendar and Property"])
p("C12","Dates and times keep value, form and time zone",
 "A date, floating date-time, UTC date-time or date-time with time zone that is set on a component is written in its standard form (pure dates declared as such, UTC marked with Z, zones as a parameter) and is read back as the same kind with the same value and zone, directly and after writing and parsing. All conversions from properties agree about it.",
 ["inputs"],"all dates from year 1 to 9999, all times of day to the second, all zone identifiers, all date-carrying setters",
 "The tests use a few dates in 2001-2022; field boundaries, padding and form confusion depend on the value.",
 [DT,C,"src/components/todo.rs"],[("formatting and parsing",DT+": CalendarDateTime, DatePerhapsTime"),("setters and getters",C+": starts, ends, all_day, timestamp, created, last_modified; src/components/todo.rs: due, completed")],["Event/Todo getters","DatePerhapsTime::from_property","TryFrom<&parser::Property>"])
p("C13","Alarm triggers and durations keep sign, amount and reference",
 "A relative trigger keeps its signed duration and whether it relates to the start or the end, an absolute trigger keeps its point in time and zone, and alarm repetition and calendar refresh intervals keep their amounts, when written and read back, directly and after parsing. Every standard duration notation is read with the amount it denotes.",
 ["inputs"],"all whole-second durations of either sign, all relations, all absolute times, all standard duration notations",
 "Only +15 minutes is ever read back in the tests; signs, units and relations were never combined.",
 [AL,DT,CAL,PR],[("trigger conversion",AL+": TryFrom<&Property> for Trigger, From<Trigger> for Property"),("duration parser",DT+": parse_duration"),("refresh interval",CAL+": ttl / get_ttl")],["Alarm properties","Trigger::try_from","Calendar::get_ttl"])
p("C14","Typed accessors report the last value set",
 "After any sequence of setter calls on an event, todo or venue, every getter reports the value most recently set through the setter or property it belongs to, clamped as documented, and nothing for what was never set; no setter disturbs another value. The same holds after the component has been written and parsed.",
 ["histories"],"all sequences of setter, generic property and repeated-property calls with arbitrary arguments on every component type",
 "Tests set each value once on a fresh object; interference, overwriting and the wire names need sequences and a round trip.",
 [C,"src/components/event.rs","src/components/todo.rs","src/components/venue.rs",PR],[("setters and getters",C+": trait Component, trait EventLike"),("todo","src/components/todo.rs"),("venue","src/components/venue.rs"),("enumerations",PR+": Class, EventStatus, TodoStatus")],["all getters"])
p("C15","A calendar behaves like a list of components plus its properties",
 "Whatever sequence of push, extend, append, collect and conversion operations builds a calendar, it holds exactly the given components in the given order, appending another calendar moves its components and leaves that one empty, and calendars not created empty carry version, product and scale exactly once. Name, description, time zone and refresh interval are reported as first set.",
 ["histories"],"all sequences of container operations and calendar setters over arbitrary components and calendars",
 "Two tests count two components; order, emptiness after moves and mixed constructors are never exercised together.",
 [CAL,"src/calendar/calendar_component.rs"],[("container operations",CAL+": push, append, extend, From, FromIterator, Deref"),("calendar setters",CAL+": name, description, timezone, ttl")],["Calendar fields and Deref","Calendar getters"])
p("C16","Every written component has exactly one identifier and timestamp",
 "Each component written by the builder, at every depth, has exactly one UID and exactly one DTSTAMP. Given ones are kept as they are; missing ones are filled with the current time in UTC and with an identifier that no other component shares, wherever that one is written (another calendar, thread or process).",
 ["inputs"],"all calendars with any subset of components carrying an identifier or timestamp, any number of components, any depth",
 "No test looks at generated identifiers; uniqueness is a statement about all pairs of components.",
 [C,PC],[("filling in",C+": Component::fmt_write")],["Calendar Display","Component::try_into_string"])
p("C17","Other standard-conforming readers understand the output",
 "Everything the builder writes is accepted by an independent strict reader of the iCalendar format (CRLF line ends, octet limit, name and parameter syntax, quoting, balanced components), and that reader finds the calendar, component, property, parameter and decoded text values that were put in. Content can therefore never break out of its line or property.",
 ["inputs"],"all calendars with names that are valid tokens, parameter values without quotes or control characters, texts of any characters and other values without line breaks",
 "The library's own reader is the only reader in the tests, so an error made symmetrically in writer and reader is invisible to them.",
 [PR,C,CAL],[("writer",PR+": Property::fmt_write"),("component writer",C+": Component::fmt_write")],["Calendar Display"])
p("C18","Values are interpreted by their standard type or the declared one",
 "Each standard property has the value type the standard gives it unless a valid value-type parameter declares another one, and conversion between value types and their declaration is lossless. Only text is escaped and unescaped; values of every other type pass through writing and reading unchanged.",
 ["inputs"],"all standard property names and unknown names x all declared value types x arbitrary values",
 "Three literals cover the override and no test covers the table.",
 [VT,PR,PP],[("type table",VT+": ValueType::by_name"),("builder side",PR+": Property::value_type"),("parser side",PP+": determin_value_type")],["Property::value_type","wire form","parsed value"])
p("C19","Zoned times convert to UTC exactly when unambiguous",
 "Converting a date-time with a known time zone to UTC yields the one instant whose local time in that zone it is, and nothing if the local time does not exist there, is ambiguous, is floating, or the zone is unknown. Creating a zoned date-time from an instant keeps local time and zone, and converts back to that instant whenever unambiguous.",
 ["inputs"],"all zones of the time zone database x all local times, in particular around offset changes",
 "One example program converts one time; gaps and overlaps exist at a few hours per year and zone.",
 [DT],[("conversion",DT+": try_into_utc, from_date_time, from_ymd_hm_tzid")],["CalendarDateTime::try_into_utc","CalendarDateTime::from_date_time"])
p("C20","The parsed model survives serialisation to JSON",
 "Serialising the parsed model of any document (calendar, component, property, parameter) to JSON and deserialising it gives an equal model, which is written as the identical iCalendar document.",
 ["inputs"],"all parsed documents",
 "Only two example programs do this, none of the tests.",
 [PCAL,PC,PP,PA,PS],[("derived serialisation","serde derives on parser::Calendar, Component, Property, Parameter, ParseString")],["serde_json::to_string / from_str"])
p("C21","All ways of reading a document agree",
 "The reading entry points (string parsing into a calendar or component, the readable-error and the simple reader, the component list, and conversion from each of them) accept the same documents and give equal calendars, with equal calendar properties and components (a bare list of components, which has no calendar properties, gives equal components). Single components and single content lines are read like the same component or line inside a document.",
 ["inputs"],"all documents, well-formed or damaged, with a calendar as the only top-level component, and all their parts",
 "Every test uses one entry point.",
 ["src/parser/mod.rs",PCAL,PC,PP],[("entry points","src/parser/mod.rs: read_*; "+PCAL+": FromStr, From; "+PC+": FromStr, TryFrom; "+PP+": FromStr, TryFrom")],["read_calendar","read_components","read_calendar_simple","FromStr impls"])
p("C22","Property parameters survive being written and read back",
 "All parameters of a property, with any value that the format can carry (separators, spaces, equal signs, backslashes, any Unicode character, empty), come back with their names and values unchanged, none missing, none added, and do not affect the property's own value. A parameter that is set again has the new value only.",
 ["inputs"],"all sequences of parameters with token names and values without double quotes and control characters, on any property anywhere",
 "One test has two parameters with a separator; the value alphabet and the number and order of parameters are unbounded.",
 [PR,PA,PP],[("quoting",PR+": Property::quote_if_contains_colon"),("parameter parser",PA+": parameters")],["Property::params","parsed Property"])
p("C23","All ways of writing agree and leave the object unchanged",
 "Displaying, converting, printing and component-wise writing of a calendar give identical bytes, each time they are repeated and for clones, and a component is written inside a calendar exactly as on its own. Writing never changes what the accessors report. Where what is written into fails, the error is reported, and what was written until then is the beginning of the same bytes.",
 ["inputs","histories"],"all calendars and components with given identifiers and timestamps, any number of repetitions",
 "Tests compare single outputs with literals and never two writers with each other.",
 [CAL,"src/calendar/calendar_component.rs",C],[("writers",CAL+": Display, TryInto<String>; "+C+": to_string, try_into_string, TryInto<String>")],["Calendar Display","Component::try_into_string","TryInto<String>"])
p("C24","Looking things up finds exactly what is there; copies are equal",
 "Looking up a property of a parsed component gives the first property of exactly that name, or nothing if there is none; looking up properties, parameters and repeated properties of typed components and calendars, and asking for a component as an event or to-do, likewise gives exactly what is there and nothing else. Parsed strings, properties and components that are copied, or made from the same names and values by hand, are equal to the original, are written identically and do not depend on the text they came from; those that differ in any name, value, parameter or component are not equal.",
 ["inputs"],"all parsed documents and strings, looked up by all names in them, names close to these and foreign names",
 "Tests look up one present name; near misses, repeated names, and copies that outlive the text are unbounded.",
 [PC,PP,PA,PS,C,PR,CAL,"src/calendar/calendar_component.rs"],[("parsed lookup",PC+": find_prop"),("typed lookup",C+": property_value, properties, multi_properties; "+CAL+": property_value; "+PR+": get_param_as, params"),("copies",PS+": to_owned, into_owned, PartialEq; "+PP+", "+PA+": new_ref")],["find_prop","property_value","get_param_as","as_event / as_todo","ParseString"])
p("C25","Errors name the line with the mistake",
 "Where a document or component cannot be read, the readable error names, by its number in the unfolded text, the first line that cannot be there (no content line, an END that closes nothing or something else, a property outside of components, something behind the calendar or the component, a BEGIN beyond the depth limit), and quotes it. If a component is not finished the error names the end of the text, in very long lines it gives the place in bytes. The simple reader's error points into the same line.",
 ["inputs"],"all unfolded documents that cannot be read, with one or several mistakes, at any line, in any layout",
 "The tests look at the error of one two-line text; which of several alternatives an error comes from depends on everything in front of the mistake.",
 ["src/parser/mod.rs",PC,"src/parser/utils.rs"],[("documented","src/parser/mod.rs: read_calendar, read_components: 'errors with line numbers'"),("errors",PC+": component_at_depth, read_component; src/parser/utils.rs: describe_error")],["read_calendar","read_components","read_calendar_simple","Calendar::from_str","Component::try_from"])
p("C26","Effort grows in proportion to the size of the input",
 "The memory and the time it takes to unfold, read or reject, convert, inspect and write a document or a property, and to build one by calls, grow in proportion to its size: with the number of components, properties, repeated properties, parameters, folds and blank lines and with the length of lines, names and values. Nothing grows with the square of any of them, so large calendars stay usable and small texts cannot keep a reader busy.",
 ["inputs"],"all documents, damaged ones too, and all sequences of builder calls, in which any piece is repeated any number of times",
 "No test has an input of more than a few thousand bytes.",
 [U,C,PR,PC,PP,"src/parser/parameters.rs",PS,CAL],[("unfolding and folding",U+": unfold; "+PR+": fold_line, Property::fmt_write"),("parser",PC+": component_at_depth; "+PP+": property; "+"src/parser/parameters.rs: parameters"),("conversion",PC+": From<Component> for InnerComponent"),("containers",C+": append_property, insert_multi; "+CAL+": push, extend, append")],["unfold","read_*","FromStr impls","Display, TryInto<String>","builder calls"])
p("C27","Results depend neither on optional features, build profile nor environment",
 "What is built, written, looked up, read and reported for the same calls and the same text is the same whether the crate is built with or without its optional features (parser, serde, chrono-tz) and with or without the compiler's debugging checks: a feature only adds functions. Nor does it depend on the time zone, locale, environment variables or working directory of the process.",
 ["inputs","configurations"],"all sequences of builder calls and all texts, in every set of features, in builds with and without debug assertions and overflow checks, in any environment",
 "The tests run with all features in a debug build in one environment only; users build with the default features, with none, in release mode, and anywhere.",
 ["Cargo.toml","src/lib.rs",C,CAL,DT,PR,PC,PP],[("features","Cargo.toml: features; cfg(feature) in src/lib.rs, "+DT),("no local time",DT+": conversions, date_naive; "+C+": fmt_write")],["whole public interface"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
    n=[t for t in x['statement'].replace('e.g.','').split('. ') if t]
    assert len(n)<=3,(x['id'],n)
print(len(P))
