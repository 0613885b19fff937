prop('P01', 'Every form of a date names the same day of the proleptic Gregorian calendar',
     'For every date from 0001-01-01 to 9999-12-31 the calendar, ordinal, week, Julian, absolute-day and struct_time forms that a date reports agree with the proleptic Gregorian calendar, and building a date from any of those forms gives back that same date. '
     'A combination of fields that names no day of the calendar is refused with a date/time error, and every one that names a day is accepted. '
     'Complete dates compare in calendar order and equal dates have equal hashes.',
     ['inputs'], 'all 3,652,059 days; all field values within one of the legal range; all pairs of dates',
     'The tests sample a few dozen dates; century, leap-year, 53-week-year and year-boundary rules interact and an error at one of them is visible only on specific days.',
     [ISO], [('Date constructor and validation', ISO + ' Date.__init__, _SetFrom*, _CheckDate'), ('form accessors', ISO + ' Date.Get*Day, UpdateStructTime'),
             ('calendar helpers', ISO + ' LeapYear, DayOfWeek, WeekCount'), ('comparison', ISO + ' Date.__cmp__, __hash__')],
     'p01_calendar', observe=['Date.GetCalendarDay/GetOrdinalDay/GetWeekDay/GetAbsoluteDay/GetJulianDay'])
prop('P02', 'Date offsets and completion of truncated dates follow the calendar',
     'Offsetting a complete date by days and weeks moves its absolute day by exactly that many days; offsetting by months, years and centuries moves the month count exactly, with a day past the end of the target month taken to that month\'s last day and any day offset applied after it. '
     'Completing a truncated calendar, ordinal or week date from a base gives the earliest date on or after the base that has the given fields, or is refused if that date does not exist. '
     'A result outside the years 1 to 9999 is refused, and the date that was offset is not changed.',
     ['inputs'], 'all complete base dates; day offsets within 4,000,000, month offsets within 1,000 combined with years and centuries; all truncated field values',
     'The tests use a handful of offsets and truncations; month-length clamping, negative offsets, year and century roll-over and 53-week years only show on particular bases.',
     [ISO], [('offset arithmetic', ISO + ' Date.Offset, _SetFromAbsoluteDay'), ('truncation', ISO + ' Date._SetFromCalendarDay/_SetFromOrdinalDay/_SetFromWeekDay with base, _Add*')],
     'p02_datearith', note='quick: units on truncated week dates restrict the week year of the base to 3 mod 4 in centuries 3 mod 4 (unrestricted in thorough).', limit_thorough=7200)
prop('P03', 'Times, zones and timepoints denote instants consistently',
     'A time accepts exactly the hour, minute, second and zone values of ISO 8601 and reports them back unchanged; adding hours, minutes and seconds, shifting between zones and completing a truncated time give a valid time of day plus a day overflow that together account for exactly the amount added or the instant kept. '
     'A timepoint shifted to any zone denotes the same instant, and timepoints compare by instant, so the same instant expressed in any two zones compares equal and hashes alike. '
     'Conversions to and from total seconds and struct_time are inverse.',
     ['inputs'], 'all times and zones (signed hours and minutes under a day); offsets of any size; all dates for timepoints away from the ends of the calendar',
     'The tests fix a handful of zones and offsets; negative zones, carries over midnight and over month or year ends need particular combinations of fields.',
     [ISO], [('time construction and arithmetic', ISO + ' Time.__init__, Offset, ShiftZone, Extend, WithPrecision'), ('timepoints', ISO + ' TimePoint.ShiftZone, __cmp__, __hash__')],
     'p03_time', note='One recorded known finding: 24:00 and 00:00 of the same zone do not compare equal.')
prop('P04', 'A character class behaves as the set of characters it was built from',
     'Membership in a character class is exactly determined by the characters, ranges and classes added to and subtracted from it: addition is union, subtraction is difference, negation is complement, in any order and with any overlap or adjacency. '
     'The ranges held stay sorted, non-empty and separated, so that classes with the same members compare equal. '
     'Copying or combining classes never changes the class copied from, and changing a copy never changes the original.',
     ['inputs', 'histories'], 'classes of up to 3 arbitrary ranges (4 in the thorough check) combined with one further operation by an arbitrary range, character or class; code points 0 to 0xD7FE',
     'The tests fix a few ranges; merging and splitting depend on the relative position of up to four end points.',
     ['pyslet/pyslet/unicode5.py'], [('range list operations', 'pyslet/pyslet/unicode5.py CharClass.AddRange/SubtractRange/AddChar/SubtractChar/AddClass/SubtractClass/Negate'),
                                    ('membership by bisection', 'pyslet/pyslet/unicode5.py CharClass.Test, _Bisection')],
     'p04_charclass', level='other', state=[('ranges', 'sorted list of disjoint, non-adjacent [low, high] pairs', 'pyslet/pyslet/unicode5.py CharClass.ranges')],
     explanation='Bounded verification with contracts: for classes of up to 3 (thorough: 4) ranges with unrestricted end points every obligation generated from the real code is discharged for all end points and all probe characters; the number of ranges is bounded, the code points are not sampled.',
     note='Bounded: classes of at most 3 ranges (thorough 4) before the operation; end points and probe character are fully symbolic.')
prop('P05', 'Date, time, timepoint and duration strings are written and parsed inversely',
     'Formatting a date, time or timepoint in basic or extended form, at any precision, truncation and zone precision the format allows, and parsing the string gives back the same fields, precision and zone, and the parser reports the format that was written. '
     'Eight-digit dates and six-digit times parse exactly when the digits name a date or time of day, and their digits become the fields. '
     'A duration written out parses back to the same components, including durations in weeks; text that is not in any of the formats is refused with DateTimeError or RFCSyntaxError.',
     ['inputs'], 'all dates of the calendar, all times and zones, all formats; durations with components up to 1200',
     'The tests round-trip a table of examples; field widths, truncation prefixes and zone signs interact per value.',
     [ISO], [('formatters', ISO + ' Get*String, GetZoneString, Duration.GetString'), ('parser', ISO + ' ISO8601Parser.Parse*Format, ParseDuration')],
     'p05_datestrings', note='Durations bounded: components up to 1200 (30 for the inner ones); time fractions are not covered.')
prop('P06', 'Percent-escaping of URI data is exact and reversible',
     'Escaping any octet string and unescaping the result gives the string back, for every choice of the characters reserved in a URI component; the escaped form contains only URI characters and none of those reserved in the component, and each octet that needs no escape is left alone. '
     'Unescaping replaces exactly the complete escape sequences and leaves all other text unchanged; the canonical form stands for the same octets and is a fixed point. '
     'Text is escaped as UTF-8, and the number of URI characters recognised is the longest well-formed prefix.',
     ['inputs'], 'all single octets; all strings of up to 3 octets (4 thorough), 4 for parsing; all pairs of Unicode characters',
     'The tests escape one fixed string; classification has to be right for each of 256 octets and malformed escapes depend on position.',
     ['pyslet/pyslet/rfc2396.py'], [('escaping', 'pyslet/pyslet/rfc2396.py EscapeData, UnescapeData, CanonicalizeData, EncodeUnicodeURI'), ('classes', 'pyslet/pyslet/rfc2396.py Is*, ParseURIC')],
     'p06_escape', level='other', explanation='Character classes and the escape of a single octet are proved for every octet; statements about strings are discharged for all strings up to the stated length (bounded).',
     note='Strings bounded in length; characters unrestricted.')
U = 'pyslet/pyslet/rfc2396.py'
prop('P07', 'URI references split, resolve and relativize as RFC 2396 says',
     'A URI reference splits into the scheme, authority, path, query and fragment of RFC 2396, prints back as the text it was made from, and its authority splits into user, host and port; text with characters that URIs do not allow is refused. '
     'Resolving a reference against a hierarchical base gives the URI of RFC 2396 section 5.2: merged path without dot segments, authority and scheme from the base where the reference has none, query and fragment always its own. '
     'Making a URI relative to a base of the same scheme and authority and resolving the result against that base gives the URI back, and canonical forms differ from the original only in letter case of scheme and host and in the port.',
     ['inputs'], 'all characters allowed in each component, paths of up to 3 segments, components of a few characters',
     'The tests use the examples of the RFC; empty segments, dot segments at either end, queries on the base and segments with colons interact.',
     [U], [('splitting', U + ' URI.__init__, ParseScheme, ParseSchemeSpecificPart, ParseRelativeURI, SplitServer, SplitPath, SplitPathSegment'), ('dot segments', U + ' NormalizeSegments'),
           ('resolve and relative', U + ' URI.Resolve, URI.Relative, RelativizeSegments, MakeRelPathAbs'), ('canonical form', U + ' ServerBasedURL.Canonicalize')],
     'p07_uri', level='other', explanation='Every obligation is discharged for all characters of the components; the lengths of the components and the number of path segments are bounded as each unit states.',
     note='Component lengths and segment counts bounded; characters unrestricted.')
HC = 'pyslet/pyslet/rfc2616_core.py'
prop('P08', 'HTTP words, quoted strings and parameters survive writing and reading',
     'Decoding a quoted string gives back exactly the string that was quoted, whatever its characters; a value is written without quotes only if it is a token, and a set of parameters that is formatted is parsed back to the same names and values. '
     'Text is split into exactly its tokens, separators, comments and quoted strings, with white space and folding between words ignored. '
     'Any other text is refused with an error rather than accepted with characters lost, and parsing always ends.',
     ['inputs'], 'all octets in every position; strings of up to 3 octets (4 thorough), up to 3 parameters and 2 words',
     'The tests tokenize a few header values; escaping, empty values, control characters, folding and unclosed strings each need a particular octet in a particular place.',
     [HC], [('quoting', HC + ' QuoteString, DecodeQuotedString, FormatParameters'), ('tokenizer', HC + ' HTTPParser.Parse*, WordParser._InitParser'), ('parameters', HC + ' WordParser.ParseParameters')],
     'p08_httpwords', level='other', explanation='Every obligation is discharged for all octets; string lengths and the number of words and parameters are bounded as each unit states. Termination follows from the bounded unrolling.',
     note='String lengths bounded; octets unrestricted.')
HP = 'pyslet/pyslet/rfc2616_params.py'
HH = 'pyslet/pyslet/rfc2616_headers.py'
prop('P09', 'HTTP protocol values parse back, compare and hash consistently',
     'Protocol versions, media types, transfer encodings, product tokens, language tags, entity tags, content ranges and HTTP dates parse back from their own text to the same values, and malformed ones are refused with a syntax error. '
     'They compare as RFC 2616 and their documentation say: without regard to case where that applies, versions by number and not as text, and comparison is antisymmetric and equal values have equal hashes. '
     'A content range is valid only if it is non-empty and inside the entity, a language range matches by prefix of subtags, and a date is accepted only with the right day of the week.',
     ['inputs'], 'all numbers in versions, ranges and dates; all token characters; token lengths of a few characters',
     'The tests compare a few literals; ordering, case folding, weekdays and hashes have to be consistent for all pairs of values.',
     [HP, HH], [('value classes', HP + ' HTTPVersion, MediaType, TransferEncoding, ProductToken, LanguageTag, EntityTag, FullDate'), ('header values', HH + ' ContentRange, Allow, CacheControl')],
     'p09_httpvalues', level='other', explanation='Numbers, dates and characters are unrestricted; the lengths of tokens and the number of parameters, subtags and version components are bounded as each unit states.',
     note='Token lengths bounded. The calendar functions are used through their contracts (proved in the same check).')
prop('P10', 'Accept headers choose the best acceptable alternative',
     'Given an Accept, Accept-Charset, Accept-Encoding or Accept-Language header, the alternative selected is the first of those with the highest quality, each alternative taking the quality of the most specific item that matches it (media ranges: with parameters, exact, type/*, */*; languages: longest prefix; tokens: named before *), and nothing is selected if every alternative has quality 0 or no match. '
     'Unless mentioned, iso-8859-1 has quality 1 and identity is acceptable as a last resort. '
     'Items compare and sort by that precedence then descending quality, equal items hash alike, and header text with any quality in thousandths is read back to the same items, malformed items being refused with a syntax error.',
     ['inputs'], 'all qualities; all token characters; up to 4 media ranges and 3 other items, in any order',
     'The tests follow the RFC examples; precedence has to hold for every order of items, every combination of wild cards, parameters, q=0 and ties.',
     [HH, HP], [('selection', HH + ' AcceptList.SelectType, AcceptTokenList.SelectToken, AcceptCharsetList, AcceptEncodingList, AcceptLanguageList'), ('precedence', HH + ' MediaRange.__cmp__, MatchMediaType, AcceptItem.__cmp__, AcceptToken.__cmp__, AcceptLanguageItem.__cmp__'), ('header text', HH + ' HeaderParser, AcceptItem.__str__; ' + HP + ' ParameterParser.ParseQualityValue')],
     'p10_negotiation', level='other', explanation='Qualities and characters are unrestricted in the selection units; token lengths and the number of items and alternatives are bounded as each unit states.',
     note='Token lengths and numbers of items bounded. Header text in the quick tier uses 21 of the 1001 qualities.')
HX = 'pyslet/pyslet/rfc2616.py'
prop('P11', 'HTTP messages are framed by their exact length',
     'However the network cuts it up, a response is read to exactly its end - after its headers if it has no body (1xx, 204, 304, HEAD), after the last chunk and trailer if it has a transfer encoding, after Content-Length octets, or else when the connection closes - and the octets of its body, no more and no less, are delivered to its request, with 1xx responses skipped and what follows left for the next response. '
     'A request is sent once, with a body of its Content-Length or in chunks that decode to it, a body that does not have the Content-Length being refused, and header fields are found by name whatever the case, repeated ones joined and folded ones kept together. '
     'Requests queued on a connection are sent in order, a request that is not idempotent only when no response is awaited, and the responses go to their requests in order.',
     ['inputs', 'histories'], 'all octets in bodies; messages cut into up to 3 pieces; two queued requests; in the single-step units all lengths and positions',
     'The tests play a few scripted sessions; cuts inside CRLF, chunk sizes and headers, responses that arrive together and partial sends each need a particular division of the stream.',
     [HX], [('reading', HX + ' Connection._RecvResponseData, _ReadResponseData, HTTPResponse.RecvLine, RecvBytes, NeedBytes, ReadHeader'), ('length', HX + ' HTTPMessage.CalculateTransferLength'), ('writing', HX + ' HTTPRequest.ReadRequestHeader, ReadRequestBody, Connection._SendRequestData'), ('pipelining', HX + ' Connection.ConnectionTask, _StartRequest, HTTPRequest.ResponseFinished')],
     'p11_messages', level='other', explanation='read_length, read_chunk and transfer_length are for all lengths and positions (one step from any state, so by induction any number of steps); the units that run whole messages bound the size of bodies and the number of pieces as each states.',
     note='Whole-message units are bounded. The socket, select and the request manager are stand-ins in the contract module (a socket that returns given pieces, a manager without credentials); locks are taken to have no effect, so concurrent use of one connection is not covered; the clock is an arbitrary number.',
     trusted=['stand-ins for socket, select and HTTPRequestManager', 'threading locks: mutual exclusion not modelled'])

RA = 'pyslet/pyslet/rfc2617.py'
prop('P12', 'HTTP credentials are sent only where they belong',
     'Challenges are read as they are written, alone or in lists, each with its scheme, its own parameters and a default realm, their parameters found by name, and Basic credentials are read back as the user and password they were written from; malformed ones are refused. '
     'Credentials answer a challenge only if its scheme, its server (scheme, host and port) and, where they have one, its realm are theirs, and are volunteered only to their server for paths at or below one where they were accepted; accepting a path adds what lies below it and nothing else. '
     'A request refused with 401 is sent again once with matching credentials, which are then remembered for its path or, if refused, removed, and no Authorization follows a redirect to another server.',
     ['inputs', 'histories'], 'all characters in names, values, realms, hosts, users and passwords of the stated lengths; listed schemes, ports, challenge lists and redirect targets',
     'The tests parse one challenge and play one 401 session; which combinations of server, realm, path prefix, challenge list and redirect leak or lose credentials needs all of them.',
     [RA, HX], [('challenges', RA + ' Challenge, AuthorizationParser.RequireChallenge'), ('credentials', RA + ' Credentials.MatchChallenge, BasicCredentials'), ('flow', HX + ' HTTPRequest.Finished, ReadRequestHeader, HTTPRequestManager.FindCredentials, FindCredentialsForURL, RemoveCredentials')],
     'p12_auth', level='other', explanation='function contracts proved for all characters; lengths and numbers of items are bounded in the units that say so.',
     note='Bounded in lengths as each unit states. base64 is taken to be lossless (encoding computed from its definition; decoding text encoded in the same run gives what was encoded). The request queue is a stand-in that records what would be sent.',
     trusted=['base64 is lossless', 'stand-in for the request queue'])

QX = 'pyslet/pyslet/qtiv2/expressions.py'
QV = 'pyslet/pyslet/qtiv2/variables.py'
prop('P13', 'QTI v2 expressions evaluate as specified, NULL included',
     'Boolean operators follow three-valued logic (anyN is NULL exactly when its NULL operands decide), comparisons and arithmetic give the mathematical result with the type the operand types imply, are NULL if an operand is NULL or a divisor is zero, and round, truncate, integerDivide and integerModulus round as specified. '
     'Containers keep the order or frequency of their values through multiple, ordered, delete, index, member, contains, match, containerSize and copying; random values are in range; attributes may refer to template variables. '
     'Operands of the wrong type or cardinality are processing errors, integers beyond 32 bits are refused, pairs match in either direction and text forms of values are read back.',
     ['inputs'], 'all integers in the stated ranges, containers of up to 3 values, up to 4 operands',
     'The tests evaluate one or two examples of each operator; NULL operands, boundaries, repeated values and mixed types combine in too many ways to sample.',
     [QX, QV], [('operators', QX + ' Evaluate of each Expression class'), ('values', QV + ' Value, SingleValue and Container classes'), ('type checks', QV + ' CheckBaseTypes, CheckNumericalTypes, CheckCardinalities')],
     'p13_expressions', level='other', explanation='operator contracts for all values of the operands in the stated ranges; numbers of operands and container sizes are bounded as each unit states.',
     note='Operands are expressions with a given value (a stand-in), so each operator is decided for whatever its operands evaluate to. contains is decided as the existing tests have it (the first container within the second). power, patternMatch, equalRounded and relative tolerances are not covered. Floats range over whole numbers and eighths.',
     trusted=['random.randint and random.choice return some value of the range'])

QP = 'pyslet/pyslet/qtiv2/processing.py'
prop('P14', 'QTI v2 item sessions keep variables, run rules and map scores as specified',
     'Template variables start with their default, outcomes get theirs (or 0) when the session begins and, unless the item is adaptive, again before each response processing, and responses at the first attempt only; a variable only takes values of its declared cardinality and base type (or NULL), is copied into rather than shared, and keeps order and frequency. '
     'Submitting sets exactly the responses named by the parameters, saved ones included and ordered ones by rank, refuses anything else, and runs the rules: the first part of a condition that is true, in order, until an exit, each setting only the kind of variable it is for. '
     'Mappings add each distinct value or area once, the default otherwise, within their bounds; lookup tables use the first entry that matches, else the default.',
     ['inputs', 'histories'], 'all integer values in the stated ranges; containers, mappings and tables of up to 3 entries; conditions of up to 4 parts; sessions of two attempts',
     'The tests run a few items from the specification; first-attempt defaults, adaptive items, repeated values, NULL conditions, exits from nested parts and malformed submissions each need a particular combination.',
     [QV, QP], [('sessions', QV + ' ItemSessionState, SessionState.__setitem__, VariableDeclaration'), ('scores', QV + ' Mapping, AreaMapping, MatchTable, InterpolationTable'), ('rules', QP + ' ResponseProcessing, TemplateProcessing and their rules')],
     'p14_sessions', level='other', explanation='contracts for all values in the stated ranges; numbers of entries, values and parts are bounded as each unit states.',
     note='Conditions and values in rules are expressions with a given value (a stand-in; P13 decides the operators). Floats range over whole numbers. Rendering of an item without a body.')

HT = 'pyslet/pyslet/html40_19991224.py'
QC = 'pyslet/pyslet/qtiv2/core.py'
prop('P15', 'Shapes contain exactly the points HTML and QTI say they do',
     'A rectangle contains its left and top edges but not its right and bottom ones, whichever corners are given; a circle and an ellipse contain the points no further out than their radii; a polygon, closed or not, the points with an odd number of edges to one side; the default shape the whole region. '
     'Percentages are taken of the width, the height or the smaller of them, rounded to the nearest pixel, and lengths and coordinates are read back from their text, other text being an error. '
     'The bounds of a shape are the smallest that contain it, and an offset moves the shape and its bounds by exactly that.',
     ['inputs'], 'all coordinates up to 10000 in size, triangles with any x coordinates and listed y coordinates, five other polygons (concave, crossing, degenerate edges) anywhere',
     'The tests try a few points of a few shapes; rounding of percentages, edges and corners hit by the ray, reversed corners and degenerate shapes are decided by single pixels.',
     [HT, QC], [('lengths', HT + ' LengthType, Coords'), ('inside', HT + ' Coords.TestRect, TestCircle, TestPoly; ' + QC + ' ShapeElementMixin.TestPoint, TestEllipse'), ('bounds', QC + ' CalculateShapeBounds, OffsetShape')],
     'p15_shapes', level='other', explanation='contracts for all coordinates in the stated ranges; triangles have any x and listed y coordinates, other polygons are the five listed, moved anywhere; radii of ellipses are listed.',
     note='In TestPoly the float intersection is compared exactly (an argument in engine/builtins2.py, num_cmp, that rounding cannot change the comparison for coordinates of this size).')

QTS = 'pyslet/pyslet/qtiv2/tests.py'
prop('P16', 'QTI v2 test forms and test sessions follow the rules of the test',
     'A form holds, for each section, the number of children to select, every required one, none twice unless with replacement, in the order of definition or, when shuffled, with the fixed ones in place; sub-sections are kept together and closed unless they are invisible and to be mixed in, and a selection that cannot be made is an error. '
     'The next question is the first one after the last, or after the target of the first branch rule that is true (an item or section further on in the same part, or out of the section, the part or the test), that is not inside anything whose pre-conditions fail; time passes for the question, all it is in and the test, and nothing else. '
     'An event must present the latest session key, gets a new one that was never used before, and is otherwise refused without any effect.',
     ['inputs', 'histories'], 'sections of up to 3 children nested up to three deep, every outcome of the random choices; every position, branch target and failing pre-condition (two at a time) of a test with two parts, four sections and five items; any times',
     'The tests build a few forms and walk one test once; shuffling is random, and each mix of fixed, required, invisible and empty sections, skipped sections and exits needs its own case.',
     [QTS, QV], [('forms', QTS + ' TestForm.Select'), ('navigation', QV + ' TestSessionState._NextQuestion, _BranchTarget; ' + QTS + ' GetBranchTarget, CheckPreConditions'), ('keys', QV + ' TestSessionState.EventUpdate, AddDuration, GetNamespace')],
     'p16_tests', level='other', explanation='contracts over every outcome of the random choices and all values; the shapes of the sections and of the test are bounded as each unit states.',
     note='Clock, hash and salt are stand-ins: given times, a hash without collisions, a fixed salt. Pre-conditions and branch rules are expressions with a given value. Individual submission in linear parts only: the code has no other (it raises NotImplementedError).')

OC = 'pyslet/pyslet/odata2/core.py'
OS = 'pyslet/pyslet/odata2/csdl.py'
prop('P17', 'OData expressions evaluate as the protocol specifies',
     'Evaluating an OData expression promotes numbers to the wider type, computes add, sub, mul, div and mod of integers exactly (truncating towards zero), and either returns the value in the promoted type or raises an error: for a value that does not fit, for division by zero, and for operands of types the operator does not take. '
     'Null makes arithmetic and functions null; no comparison holds with null except that null is equal to null; a null operand of and/or gives false. '
     'isof and cast accept exactly the types a value promotes to; string, date and member functions return what they are defined to return.',
     ['inputs'], 'all values of the integer types, every combination of types and nulls; strings of up to 3 letters and spaces; Decimal, Double and Single: types and nulls only',
     'The tests evaluate a few dozen literal expressions; each operator has its own cases for every pair of types, for null on either side and for values that only just fit.',
     [OC, OS], [('operators', OC + ' UnaryExpression, BinaryExpression, PromoteTypes'), ('functions', OC + ' CallExpression, CanCastMethodArgument'), ('properties', OC + ' PropertyExpression'), ('values', OS + ' SimpleValue.SimpleCast, Cast and the integer SetFromValue methods')],
     'p17_eval', level='other', explanation='contracts over all values of the integer types and all combinations of types and nulls; strings are bounded by length as each unit states; no obligation covers arithmetic on Decimal, Double or Single values.',
     note='Division is checked for all dividends with twelve divisors and for all divisors up to 1000 with seven dividends. Entities and complex values are stand-ins with given properties.')
prop('P18', 'OData expressions bind as the protocol says, and what is written reads back',
     'Reading an OData expression groups operators by the precedence of the protocol, equal ones from the left, with brackets overriding and white space of no importance; anything that is not an expression is refused with ValueError. '
     'The text written for an expression, or for an ordering, is read back as the same expression: same operators, operands, literal values and types.',
     ['inputs'], 'all pairs and the listed triples of operators, every operator in every other, 22 kinds of operands; every Int32 literal; strings of up to 3 characters',
     'The tests parse a few expressions of one or two operators; brackets, associativity, unary operators and look-alike names only go wrong in particular combinations.',
     [OC, OS], [('reading', OC + ' Parser.ParseCommonExpression, ParseMethodCallExpression, ParseCastLike, ParseOrderbyOption'), ('writing', OC + ' __unicode__ of the expression classes'), ('literals', OC + ' Parser.ParseURILiteral; ' + OS + ' Parser')],
     'p18_exprtext', level='other', explanation='contracts over all literal values; the shapes of the expressions are bounded as each unit states.',
     note='Expressions of bounded shape: up to three operators.')
prop('P19', 'EDM values hold what their type allows, and what is written reads back',
     'Setting a simple value of the entity data model stores exactly the value given (numbers cut towards zero for integer types), or raises ValueError or TypeError and leaves the old value; numbers out of the range of the type are never stored, and null is kept apart from every value. '
     'The literal written for a value is read back as an equal value of the same type (times to the declared precision, floating point values to the digits Python prints), and text that is no literal of the type is refused with ValueError. '
     'Copies, casts and comparisons of values respect types and ranges and never change their source.',
     ['inputs'], 'all integers up to 2**70; every DateTime of the years 1 to 9999 and every zone; binary values of up to 3 bytes, texts of up to 4 or 5 characters; the listed malformed texts',
     'The tests try two or three literals of each type; ranges, precision, zones, nulls and casts only go wrong for particular values.',
     [OS], [('values', OS + ' SimpleValue and its sub-classes: SetFromValue, SetFromLiteral, SetFromNumericLiteral, __unicode__, Cast, Copy, __eq__'), ('parsing', OS + ' Parser'), ('factories', OS + ' EDMValue.NewSimpleValue, NewSimpleValueFromValue')],
     'p19_values', level='other', explanation='all inputs for integers and whole-second times; texts of bounded length.',
     note='Edm.Decimal and Edm.Guid values, fractional seconds and floating point formatting are outside: decimal.Decimal, uuid.UUID and float formatting are library code the verifier does not model.')
prop('P20', 'OData URIs keep keys, paths and options apart',
     'Reading the URI written for an entity gives back its entity set and its key, whatever characters the key holds; segments, key predicates and path options are told apart, and what is not below the path prefix is not of the service. '
     'Custom parameters, filters, orderings, expand and select trees, skip and top read back as they were written, whatever their characters and their order. '
     'Key predicates, path options or system options that are malformed or out of place are refused: the latter with InvalidPathOption or InvalidSystemQueryOption.',
     ['inputs'], 'all Int32 keys; keys and values of up to 2 characters of ASCII and beyond; the listed paths, trees and malformed texts',
     'The tests parse some fifty fixed URIs; escaping and the interplay of segments, keys and options only go wrong for particular characters and combinations.',
     [OC, 'pyslet/pyslet/rfc2396.py'], [('URIs', OC + ' ODataURI'), ('options', OC + ' Parser.ParseExpandOption, ParseSelectOption, FormatExpand, FormatSelect'), ('escaping', 'pyslet/pyslet/rfc2396.py EscapeData, UnescapeData')],
     'p20_odatauri', level='other', explanation='contracts over all characters of keys and values of bounded length, and over all combinations of the listed segments and options.',
     note='Texts are bounded as stated; the trees are listed.')

XM = 'pyslet/pyslet/xml20081126/'
prop('P21', 'XML documents are read, checked and written as XML 1.0 defines',
     'A well-formed document is accepted and yields the elements, data, attribute values and defaults it spells, with character references, entities, CDATA sections and line ends resolved; what is not well-formed is refused with an error, and parsing always ends. '
     'Names, characters and white space are the classes XML 1.0 defines, and with checkValidity the declared attribute types are enforced by defaulting and collapsing. '
     'Text written by escaping functions, as attribute values, as CDATA sections or as a whole tree reads back the same.',
     ['inputs'], 'texts of up to 2-4 characters, symbolic over the classes XML distinguishes (all of Unicode for the character classes); the listed documents around them',
     'The tests parse fixed files; which characters must be escaped, end a construct or be refused depends on their combination.',
     [XM + 'structures.py', XM + 'parser.py', 'pyslet/pyslet/unicode5.py'],
     [('parser', XM + 'parser.py XMLParser'), ('writing', XM + 'structures.py EscapeCharData, EscapeCDSect, Element.WriteXMLAttributes, Element.WriteXML'), ('entities', XM + 'structures.py XMLEntity, XMLDTD')],
     'p21_xml', level='other', explanation='contracts over all characters of bounded texts in every lexical position, with contracts on the character class tests used at their call sites.',
     note='Texts are bounded as stated; documents are given as character strings, since byte codecs are outside the subset.')

prop('P22', 'Validity of XML documents is decided as their DTD says',
     'With checkValidity, a document is found valid exactly when its elements match their declared content models, their data and attributes suit their declarations, IDs are unique and referred to, and the declarations themselves meet their constraints; errors are listed, or raised on demand. '
     'The content cursor accepts exactly the sequences a model matches, deterministic or not, and foretells what may come next. '
     'Models that are not deterministic are recognized, and malformed declarations are refused.',
     ['inputs'], 'models of up to 3 names or three levels of groups with every occurrence, sequences of up to 3-4 elements; names and values of up to 2-3 characters; the listed declarations',
     'The tests validate fixed files; matching depends on how groups, occurrences and optional parts combine.',
     [XM + 'structures.py', XM + 'parser.py', 'pyslet/pyslet/unicode5.py'],
     [('content models', XM + 'structures.py ElementType, XMLContentParticle, XMLNameParticle, XMLChoiceList, XMLSequenceList, ContentParticleCursor'), ('checks', XM + 'parser.py XMLParser.CheckAttributes, CheckExpectedParticle, HandleData, ParseElementDecl, ParseAttlistDecl')],
     'p22_valid', level='other', explanation='the particle maps and the cursor against a matcher over positions, for all models and sequences in the bounds; attribute values over symbolic characters.',
     note='Models and sequences are bounded as stated; external subsets are not read.')

prop('P23', 'XML names are expanded and written as Namespaces in XML defines',
     'A prefix means what its nearest declaration says, xmlns="" undeclares the default namespace, and attributes without a prefix have no namespace. '
     'Trees of elements and attributes, whatever their namespaces and the prefixes chosen for them, read back with the same expanded names and values once written. '
     'Names that are not qualified names, and attributes given twice by expanded name, are refused.',
     ['inputs'], 'trees of up to four elements in none or two namespaces, up to two declarations on each of three levels, the listed prefixes; names of up to 3 characters',
     'The tests write and read single documents; what a prefix means depends on every declaration around it.',
     ['pyslet/pyslet/xmlnames20091208.py', XM + 'structures.py', XM + 'parser.py'],
     [('prefix maps and writing', 'pyslet/pyslet/xmlnames20091208.py XMLNSElementContainerMixin, XMLNSElement.WriteXMLAttributes, GetPrefix, MakePrefix, ResetPrefixMap'), ('reading', 'pyslet/pyslet/xmlnames20091208.py XMLNSParser.MatchXMLName, ParseNSAttributes, ExpandQName, GetSTagClass, NSEqualNames, IsValidNCName'), ('text', XM + 'structures.py EscapeCharData; ' + XM + 'parser.py')],
     'p23_names', level='other', explanation='documents written and read by the real writer and parser for every choice of namespaces, attributes and prefixes in the bounds, with symbolic namespace names; prefix maps and names over symbolic values.',
     note='Prefixes that are not declared are accepted (an existing test relies on it), so nothing is said about them.')
