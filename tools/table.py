PENDING = 'The check for this property is still being built in this work tree.'
ANY2 = 'all pairs of operands of one supported number format (binary32, binary64, x87 extended)'

p('C01', 'Arithmetic returns the tightest enclosure of the exact range',
  'For the unary and binary arithmetic operations, reciprocal, square, square root and fused multiply-add on non-decorated intervals, the lower bound of the result is the infimum of the exact range over the operands (restricted to the natural domain) rounded once towards minus infinity and the upper bound is its supremum rounded once towards plus infinity, in the number format of the result. An empty operand, or operands outside the domain, give the empty interval.',
  'all operands (empty, bounded, unbounded, degenerate, any signs, overflow and underflow) of all three number formats',
  'Tests sample a few dozen bound pairs; wrong rounding direction, a wrong case of the sign table or double rounding shows only for particular bounds.',
  [EL, UTL, SETUP, MPV, MPI], [('sign-case tables over directed MPFR operations', EL), ('directed rounding and subnormalisation on extraction', MPI)],
  claim=(T_AI, VN + TRUST))

p('C02', 'Exponential, logarithmic and hyperbolic functions are tightest',
  'For exp, exp2, exp10, log, log2, log10, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh on non-decorated intervals, the result bounds are the infimum and supremum of the exact range over the part of the operand inside the function domain, each rounded once outwards to the result format. If no point of the operand is in the domain the result is empty.',
  'all operands of all three number formats, including infinite bounds and bounds on the domain boundary',
  'A wrong direction, a swapped bound or a mishandled domain edge appears only for specific bounds; the tests sample a handful.',
  [EL, MPV, MPI], [('monotone evaluation with directed rounding after domain restriction', EL)], claim=(T_AI, VN + TRUST))

p('C03', 'Integer power, real power and atan2 return tightest enclosures',
  'For the integer power, the general power and the two-argument arctangent on non-decorated intervals, the result bounds are the infimum and supremum of the exact range over the domain part of the operand box, each rounded once outwards. This holds for every integer exponent (zero, positive, negative, even, odd) and every position of the box relative to the axes and to one.',
  'all operand boxes and all int exponents, three number formats',
  'The tests sample few exponents and boxes; the case tables have dozens of sign and parity cases.',
  [EL], [('parity and sign case analysis', EL)], claim=(T_AI, VN + TRUST))

p("C04", "Sine, cosine and tangent return the tightest enclosure of the range",
  'Sine, cosine and tangent return the exact range of the function over the operand, rounded outwards once per bound (entire when the operand of tan contains a pole, [-1,1] where the range is the whole of it, also for unbounded operands), with the strongest decoration for tan and the operand\'s decoration, at most dac for unbounded operands, for sin and cos; empty and NaI propagate. For operands whose width is within two units in the last place of pi or 2 pi only the pole test of tan is required.',
  'all operands, bare, decorated and mixed-format',
  'The tests sample a few bounds near zero; the case of the code taken depends on the quadrants of both bounds and on the width.',
  [EL], [('monotone pieces from the sign of the derivative at the bounds and the width compared with pi', EL)], claim=(T_AI, VN + TRUST + ' The signs of sin and cos at a bound are treated as independent facts about the bound; MPFR is trusted to compute them.'))

p('C05', 'Absolute value, min, max, sign and integer rounding are exact',
  'Absolute value, minimum, maximum, sign, ceiling, floor, truncation and the two round-to-nearest-integer functions on non-decorated intervals return exactly the range of the function over the operand, with no widening; an empty operand gives the empty interval.',
  'all operands of the three number formats', 'The tests sample; ties, zero-straddling and half-integer cases are particular inputs.',
  [EL], [('bound-wise evaluation', EL)], claim=(T_AI, VN + TRUST))

p('C06', 'Boolean relations decide exactly the relation of the two sets',
  'The predicates (empty, entire, common, singleton, NaI, membership) and comparison relations (equal, subset, less, precedes, interior, strictly less, strictly precedes, disjoint and their converses and operator forms) return true exactly when the mathematical relation of IEEE 1788 holds for the sets denoted by the operands. This includes empty and unbounded operands and operands of different number formats; a relation with NaI is false and NaI is not equal to itself.',
  'all operand pairs, bare and decorated, all format combinations', 'Relations depend on the order type of four bounds including infinities; the tests pick single representatives and few mixed-format pairs.',
  [BOOL, REC, BASE, 'p1788/infsup/base_interval_bool_func_impl.hpp'], [('bound comparisons', BOOL)], claim=(T_AI, VN + TRUST))

p('C07', 'The overlap relation reports exactly one state, the correct one',
  'For every pair of intervals the overlap relation returns the state that IEEE 1788 assigns to the relative position of their bounds, including the states for empty operands; any NaI gives the undefined state. It agrees for bare, decorated and mixed-format operands.',
  'all operand pairs, all format combinations', 'There are 13 relative positions plus degenerate and empty cases; boundary coincidences are single points among the inputs.',
  [OVL, OVH], [('decision tree over bound comparisons', OVL)], claim=(T_AI, VN + TRUST))

p('C08', 'Intersection and convex hull are exact set operations',
  'Intersection returns the largest interval contained in both operands (empty if they are disjoint) and convex hull the smallest interval containing both, rounded outwards once only when the result format is narrower. Decorated results carry the decoration trv, or are NaI if an operand is NaI.',
  'all operand pairs, bare, decorated and mixed-format', 'Disjoint, touching, nested, empty and unbounded cases in mixed formats are sampled only sparsely.',
  [SET], [('max/min of bounds', SET)], claim=(T_AI, VN + TRUST))

p('C09', 'Numeric functions of an interval are correctly rounded',
  'Infimum, supremum, midpoint, radius, width, magnitude and mignitude return the exact value of the functional rounded in the direction required by IEEE 1788, with the prescribed values for empty, half-bounded, entire and NaI operands and with overflow avoided where the exact value is representable. The midpoint-radius pair encloses the interval and the sign of zero of infimum (minus) and supremum (plus) is fixed.',
  'all operands, all source and destination formats', 'Rounding direction and overflow of intermediate sums show only near format limits.',
  [NUM], [('directed rounding, long double and MPFR intermediates', NUM)], claim=(T_AI, VN + TRUST))

p('C10', 'Cancellative addition and subtraction are tightest or entire',
  'Cancellative subtraction returns the tightest interval z with y + z = x whenever the width of x is at least the width of y, decided on exact widths, for bounded operands, and the entire line (with empty cases as in IEEE 1788) otherwise. Cancellative addition is cancellative subtraction with the second operand negated; decorated results carry trv and NaI propagates.',
  'all operand pairs, bare, decorated and mixed-format', 'The width comparison must be exact; operands whose widths differ by less than rounding error are measure-zero in sampling.',
  [CAN], [('exact width comparison by error-free sums', CAN)], claim=(T_AI, VN + TRUST))

p('C11', 'Reverse operations return the tightest enclosure of the preimage',
  'The reverse operations of square, absolute value, integer power (exponents 0, 1, 2, ... and -1), hyperbolic cosine and multiplication return the tightest enclosure of the points of the given interval whose image lies in the constraint interval, and empty when there are none. The two-part reverse multiplication returns the two connected parts in ascending order; decorated forms carry trv (except where IEEE 1788 allows more for multiplication) and propagate NaI.',
  'all operand combinations and exponents', 'Case tables over signs and parity with intersection against the given interval; tests sample a few.',
  [REV, PAIR], [('inverse images by halves, intersected', REV), ('extended division', PAIR)], claim=(T_AI, VN + TRUST))

p('C12', 'Trigonometric reverse operations contain the preimage',
  'The reverse operations of sine, cosine and tangent contain every point of the given interval whose image lies in the constraint interval.',
  'all operand pairs', 'Depends on the period containing each bound.', [REV], [('period counting', REV)],
  na='Depends on the period number of arbitrary bounds (runtime quotient by pi), which no order-type partition determines; no sound static argument in reach.')

p('C13', 'Decorations are the strongest justified and never exceed the inputs',
  'For every elementary function on decorated intervals the interval part equals that of the bare function and the decoration equals the minimum of the operand decorations and the strongest decoration the function has on the operand box: com if defined, continuous and the result is bounded, dac if unbounded, def if only defined, trv if some point is outside the domain or the box is empty.',
  'all decorated operands with all decorations, three number formats', 'The decoration flips exactly at domain boundaries, discontinuities and on overflow; tests sample a few points.',
  [EL], [('local decoration then minimum', EL)], claim=(T_AI, VN + TRUST))

p('C14', 'NaI propagates through every decorated operation',
  'If any operand of a decorated operation is NaI, the result is NaI when it is an interval, false when it is a relation other than inequality, NaN when it is a number, and the undefined state for overlap.',
  'all decorated operations and all operand combinations containing NaI', 'Each operation handles NaI separately; a missed operand position or mixed-format overload is not sampled.',
  [EL, BOOL, NUM, SET, CAN, OVL], [('NaI test in each operation', EL)], claim=(T_AI, VN + TRUST))

p('C15', 'Invalid operands are neutralised and reported by every operation',
  'An operand object that is not a valid interval or decorated interval (bounds NaN on one side, crossing, a bound infinite on the wrong side, or an impossible decoration) never contributes numbers to a result: bare operations return empty, decorated ones NaI, relations false, numeric functions NaN, and the invalid-operand flag is raised.',
  'all operations, all operand positions, all invalid representations', 'Invalid objects can only be produced by raw access and every operation checks separately; tests check few positions.',
  [VAL, EL, BOOL], [('validity predicate at the head of each operation', VAL)], claim=(T_AI, VN + TRUST))

p('C16', 'Mixed-format operations round once to the destination format',
  'An operation whose operands have different number formats, or whose requested result format differs from theirs, returns the tightest enclosure in the result format of the exact range over the exact operand intervals, as if computed in infinite precision and rounded outwards once. For decorated operations the decoration is that of the exact operation, lowered from com to dac if the destination bounds are infinite.',
  'all operands and all combinations of the three formats', 'The number of format combinations times inputs is far beyond what the tests sample; double rounding and early overflow are rare inputs.',
  [EL, UTL, CLS], [('conversion to the widest format, single final hull conversion', EL)], claim=(T_AI, VN + TRUST))

p('C17', 'Constructors and conversions accept exactly the valid data',
  'Building an interval from two numbers, from numbers with a decoration, or from another interval of any format or decoration status yields the tightest enclosing interval exactly when the data denote one, and otherwise the empty interval (bare) or NaI (decorated). The decoration of a converted value is the strongest one justified, com never accompanies an unbounded interval, and NaI survives conversion.',
  'all numbers including NaN and infinities, all decorations including invalid values, all format pairs', 'Rounding on conversion, crossing bounds, infinities and invalid decorations form a large product; tests sample.',
  [CLS, UTL, IVH, DIH, BASE], [('validation and outward conversion', CLS)], claim=(T_AI, VN + TRUST))

p('C18', 'Exception flags are raised exactly when the standard requires',
  'Constructing from invalid numbers raises undefined-operation, using an invalid object or decoration raises invalid-operand, extracting the interval part of NaI raises its own flag, and no operation on valid operands raises any flag or clears one already raised.',
  'all operations and inputs, all prior flag states', 'A spurious or missing flag appears only for specific data; a test that does not inspect the flag word after each call cannot notice.',
  [CLS, VAL, EXC], [('signal functions at the validation sites', CLS)], claim=(T_AI, VN + TRUST))

p('C19', 'The exception mechanism throws what it signals, after recording it',
  'Signalling records the flag first and then throws the exception class of that flag if and only if the control word enables it; without it the signalling call returns the new flag word. Clearing empties the flag word only, setting the control word changes only the control word, and each flag predicate reports exactly its own flag.',
  'all flag words and control words, all signals', 'Tests cover single flags in isolation, not all combinations of prior state and control word.',
  [EXC], [('state and control word accessors', EXC)], claim=(T_AI, VN + TRUST))

p('C20', 'Exception state is confined to the thread that raised it',
  'The exception flag word and the control word are per-thread: a flag raised or a control word set in one thread is never observable in another and concurrent use of the library from several threads involves no data race on them.',
  'all interleavings of threads using the library', 'The test suite is single-threaded.', [EXC], [('storage class of the state objects', EXC)],
  over=('schedules',), claim=(T_EFF, 'Every function definition instantiated from the headers is scanned for objects with static storage that are written; every operation is interpreted with a symbolic thread so that state of another thread is a different object. Objects inside the C, C++ and MPFR libraries are out of scope. ' + TRUST))

p('C21', 'Operations keep no hidden state and do not modify their operands',
  'The value returned by an operation depends only on its operands: operations keep no mutable state between calls other than the documented exception words and stream format settings, do not modify their operands, and do not depend on the rounding mode, on the MPFR exponent range or on any state left by earlier calls. They leave the rounding mode of the caller as it was and change no process-wide setting such as the locale, default MPFR precision or allocation functions.',
  'all call histories', 'Hidden state shows only after particular earlier calls; each test starts from a fresh process or does not vary history.',
  [EL, SETUP, MPV, MPI, RED, IOI], [('exponent range and precision set up per call', SETUP)], over=('histories', 'inputs'),
  claim=(T_EFF, 'Every elementary, relational, numeric, set, cancellative, constructor and reduction call is interpreted with an unknown initial rounding mode, MPFR exponent range and flag word; writes to operands and static storage and dependence on the unknown state are obligations. Text input and output, manipulators and reductions are covered by a scan of every library function for writes to static objects and for process-wide setters. ' + TRUST))

p('C22', 'Every multiple-precision resource is initialised and released once',
  'On every path through every operation, including reductions and text input and output, each multiple-precision variable and each heap object the library allocates is initialised before use and released exactly once, by the matching form, and its storage is never shared between two objects that both release it.',
  'all paths of all operations', 'Leaks and double releases do not fail value tests.', [MPV, MPI, RED, IOI], [('RAII wrapper', MPI)], over=('inputs', 'programs'),
  claim=(T_EFF, 'Typestate of every MPFR record and heap object on the interpreted paths of every operation (reductions up to two elements); interprocedural typestate over the control-flow graph for multiple-precision objects in local storage of every library function, text input and output included. Storage inside the C++ library is out of scope. ' + TRUST))

p('C23', 'Text input accepts exactly the interval literal grammar',
  'Reading a bare or decorated interval from a stream succeeds exactly for the interval literals of IEEE 1788 (inf-sup forms with decimal, hexadecimal or rational numbers, missing or infinite bounds, single numbers, uncertain forms, empty, entire, NaI for decorated intervals, in any letter case, with the permitted white space and an admissible decoration), takes exactly the characters of the literal from the stream, and for any other text sets failbit and leaves the interval as it was. Constructing an interval from a string succeeds exactly for one such literal with white space around it and otherwise yields empty or NaI and signals an undefined operation.',
  'all texts', 'The language is infinite; tests sample.', [IOI, CLS, UIO, DECO], [('regular expressions, scan of the stream and checks on the matched text', IOI), ('text_to_interval', CLS)],
  claim=(T_TXT + '; equivalence of the regular expressions with the literal grammar decided by automata', 'Regular expressions: all texts (languages compared; trusted: ECMAScript regular expressions of the library match the language their syntax denotes). Characters taken from the stream: up to three symbolic characters in 23 contexts. Conditions besides (order of bounds, decorations, trailing text): enumerated layouts with symbolic digits. ' + IOTRUST + TRUST), level='other')

p('C24', 'Numbers read from text are rounded outwards',
  'The bounds of an interval read from a stream or built from a string are the exact numbers written, the lower one rounded towards minus infinity and the upper one towards plus infinity in the destination format with one rounding, for decimal, hexadecimal and rational numbers, single numbers and all uncertain forms (radius in units of the last place, half a unit by default, ?? for an unbounded interval, one-sided forms). The decoration of the result is the one written, or com or dac where none is written, and never com for an unbounded interval. Reading changes nothing else on the stream.',
  'all numeric literals', 'Directed rounding shows only for literals that are not representable.', [IOI, CLS, UIO], [('directed conversion of each bound', IOI)], over=('inputs',),
  claim=(T_TXT, 'Digits symbolic (one to six of them in each number, together with fixed longer ones), layouts enumerated: signs, points, exponents including overflow and underflow of the format, all separators and white space, radii and directions. GMP is taken to be exact and mpfr_set_q to round as asked. ' + IOTRUST + TRUST), level='other')

p('C25', 'Text output encloses the interval printed',
  'The text written for a valid interval denotes an interval that contains the one printed, for every output form, precision and width: in the inf-sup form the lower bound is converted with rounding towards minus infinity and the upper bound towards plus infinity (for a decorated interval followed by its decoration); in the uncertain forms the number is followed by ? and a radius, in units of its last place, that reaches both bounds rounded outward in the stated direction, or by ?? when a bound is infinite. Empty, Entire and NaI are written as their names unless their bounds were asked for, width settings only add spaces, and nothing is written for an invalid object.',
  'all intervals, all format settings', 'Digit strings are sampled for few values and settings.', [IOI, UIO], [('directed decimal conversion per bound, radius of the uncertain forms', IOI)],
  claim=(T_TXT, 'All bounds; settings: every representation, two precisions, widths and total widths, both letter cases, punctuation on and off. A decimal conversion is represented by its format, rounding direction and value; its digits are symbolic, for a selection of signs, lengths and exponents of the bounds and midpoint. That a directed mpfr conversion encloses is taken from MPFR. ' + IOTRUST + TRUST), level='other')

p('C26', 'Decorations and overlap states print and parse by the tables of the standard',
  'Writing a decoration to a stream produces ill, trv, def, dac or com (in upper case or as the number 0, 4, 8, 12, 16 when the stream is set so), writing an overlap state produces its name or its number, and nothing else changes on the stream, whatever the other settings of the stream are. Reading a decoration accepts exactly these words in any letter case, or one of these numbers, after white space when the stream skips it; any other text sets failbit and leaves the decoration as it was.',
  'all enumerators, all stream settings, all texts', 'Tables are easily desynchronised for one enumerator, one letter case or one setting.', [DECO, OVH, UIO], [('switch on the enumerator, comparison of the word read', DECO), ('lower-casing and skipping of white space', UIO)],
  claim=(T_TXT, 'Output: every enumerator, settings symbolic. Input: up to four symbolic characters (every character value), with and without skipping of white space, and a symbolic or overflowing number; longer runs of white space are not analysed. ' + IOTRUST + TRUST), level='other')

p('C27', 'Format manipulators set exactly their own stream setting',
  'Each stream manipulator changes only the setting it names on the stream it is applied to, to a value of its own (the width and precision manipulators to their argument), whatever was set before; it writes no text; the first manipulator of each group is the behaviour of a new stream; and writing or reading an interval, decoration or overlap state leaves all settings of the stream (those of the library and the format flags, precision and fill character) as they were, also when an exception ends the operation.',
  'all manipulators and stream histories', 'Interference appears only in combinations.', [IOM], [('per-stream words', IOM)], over=('histories',),
  claim=(T_TXT, 'Every manipulator over symbolic earlier settings, which stand for every history; output and input of the shapes and settings analysed for C25 and C24, and with conversions that throw. ' + IOTRUST + TRUST), level='other')

p('C28', 'Reductions are computed exactly and rounded once',
  'Sum, dot product, sum of squares and sum of absolute values over vectors return the exact value of the expression correctly rounded once in the given direction, whatever the order of the elements and however far intermediate results lie outside the number format. NaN elements or undefined combinations of infinities give NaN.',
  'all vectors and lengths', 'Cancellation and overflow of intermediate results show only for special vectors.', [RED], [('exact accumulation', RED)],
  claim=(T_AI, 'Bounded: vectors of 0..3 elements (quick; 2 for dot), 0..5 (thorough; 3 for dot) in every order type of elements, every rounding direction, all formats, iterator and list forms; longer vectors (4..18 and selected lengths up to 257) for patterns of finite positive and negative elements, one infinity or one NaN. For those lengths the extracted term equals the once-rounded exact value; other lengths are not analysed. ' + TRUST), level='other')

p('C29', 'Headers are usable from several translation units',
  'Every public header can be included in several translation units of one program without multiply defined symbols, and every public operation can be instantiated for every supported number format and combination.',
  'all programs using the library', 'Each test is one translation unit and instantiates only double for most operations.', [DECO, BASE], [('inline / template definitions', DECO)], over=('programs',), claim=('compile-time witnesses (every header alone, twice and in both orders; every public operation instantiated) and a linkage rule over all definitions in the IR', 'The deciding step is the compiler accepting each instantiation and the linkage of each definition and object in the module; nothing is run.'))

p('C30', 'All public spellings of an operation compute the same function',
  'The static member, the free function and the operator spellings of an operation on interval objects return the same result for the same operands, NaI and invalid objects included: every elementary function, relation, set, cancellation, numeric, reverse and overlap operation, and + - * / == != for those that have an operator.',
  'all operands', 'The tests mostly use one spelling; a wrong forwarding in another shows only where the functions differ.', [BASE, FE, IVH, DIH], [('forwarding to the flavor', FE)],
  claim=(T_AI, 'Relational: both spellings are interpreted one after the other on the same symbolic operands and their results compared term by term; nothing is assumed of what they should return. The trigonometric reverse operations are compared on empty, NaI and invalid operands only. ' + TRUST))

p('C31', 'Reverse integer power with exponents below -1 is tightest',
  'The reverse integer power with an exponent below -1 returns the tightest enclosure of the points of the given interval whose power lies in the constraint interval.',
  'all operand pairs and exponents below -1', 'Depends on how far the composition of reciprocal and root rounds.', [REV], [('search for the rounded bound', REV)],
  na='The code finds each bound by stepping through neighbouring numbers until a rounded power passes the constraint; the number of steps depends on the operands at run time and no static bound is in reach (exponents 0, 1, 2, ... and -1 are decided by C11).')
