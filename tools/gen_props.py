#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The texts live here so that they can be edited comfortably."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    base = "include/Caitlyn/"
    a = {"files": [base + f for f in files],
         "mechanism": [{"name": n, "where": base + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": base + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CH="__Core/Char/Char.h"; CU="__Core/Char/Utility.h"; ST="__Core/String/String.h"; SU="__Core/String/Utility.h"
SB="__Core/String/StringBuilder.h"; KMP="__Core/String/Algorithms/Kmp.h"; BI="__Numeric/Types/BigInteger.h"
BF="__Numeric/Types/BigFloat.h"; JP="__Serializing/Json/Types/JsonParser.h"; JD="__Serializing/Json/Types/JsonData.h"
JJ="__Serializing/Json/Types/Json.h"; JU="__Serializing/Json/Utility.h"; EX="__Core/Error/Expected.h"; UX="__Core/Error/Unexpected.h"
SP="__Core/Memory/Types/SharedPointer.h"; WP="__Core/Memory/Types/WeakPointer.h"; UP="__Core/Memory/Types/UniquePointer.h"; RP="__Core/Memory/Types/RawPointer.h"
CMP="__Core/Utility/Comparators.h"; RND="__Core/Utility/Random.h"; MU="__Core/Collections/Utility/MapUtility.h"
FI="__Core/File/File.h"; IO="__Core/IO/Stream.h"; TR="__Testing/Types/TestRegistry.h"; APP="__Caitlyn/Application.h"
DS="__Core/Memory/Utility/SizeCalculation.h"

prop("C01","A character encodes and decodes every Unicode code point exactly",
 "Building a character from any non-zero Unicode scalar value gives exactly the standard UTF-8 encoding of it, and reading the code point back gives the same value. "
 "Building or assigning a character from bytes succeeds exactly when the bytes are one lead byte followed by the number of continuation bytes that it announces, keeps those bytes unchanged, and otherwise throws std::invalid_argument and leaves the target as it was.",
 ["inputs"],"every scalar value U+0001..U+10FFFF without surrogates; every byte sequence of 0..5 bytes",
 "The character tests are placeholders; 1.1 million code points and all byte quintuples cannot be listed in a test.",
 [CH],[("FromCodePoint / CalculateLength",CH),("IsValidUtf8Char",CH),("GetCodePoint",CH)],["Char::str()","Char::size()","Char::GetCodePoint()"])
prop("C02","Characters are ordered exactly as their code points",
 "Equality and the four ordering operators of characters agree with the numeric order of the code points they hold, so they form one consistent total order.",
 ["inputs"],"every pair of Unicode scalar values",
 "No test compares characters; the order crosses encoding-length boundaries that samples miss.",
 [CH],[("operator< <= > >= == !=",CH)],["comparison operators"])
prop("C03","A string holds exactly the characters of its UTF-8 text, or rejects it",
 "Constructing, assigning or appending NUL-terminated UTF-8 text keeps every byte: str() gives the text back, the length is the number of characters, the byte count the number of bytes, and indexing and iteration give the characters in order. "
 "Text that is not a sequence of complete characters (a lead byte followed by as many continuation bytes as it announces) or that ends inside one is rejected with an exception (std::exception), and no byte past the terminator is ever read. Checked indexing outside the string throws std::out_of_range.",
 ["inputs"],"every byte string of up to 4 bytes (thorough: 5) followed by its terminator, through six ways of building or extending a string",
 "One string test with ASCII literals exists; malformed and truncated sequences and multi-byte boundaries are never exercised.",
 [ST,CH],[("DecodeUtf8Char",ST),("String constructors / Append",ST),("str / ByteCount",ST)],["String::str()","size()","ByteCount()","operator[]","At()"])
prop("C04","String searching agrees with the definition of substring occurrence",
 "Find returns the index of the first occurrence at or after the given position, ReverseFind the start index of the last occurrence that ends at or before the given position, FindIf and FindIfNot the first matching character from the position, and Contains, StartsWith and EndsWith tell whether the needle occurs anywhere, at the start, at the end. "
 "Where there is no occurrence the index is NPosition, and a start position past the end finds nothing.",
 ["inputs"],"every ASCII haystack of up to 5 characters and needle of up to 3, every haystack of up to 2 characters of 1 to 3 bytes and needle of 1 (thorough: 6 and 4 ASCII), every start position",
 "Existing tests never call the search functions with overlapping, repeated or out-of-range arguments.",
 [ST],[("Find / ReverseFind / FindIf / Contains / StartsWith / EndsWith",ST)],["return values"])
prop("C05","String editing behaves as a sequence of characters",
 "Concatenation, append, push-back, insert (text, string, repeated character), substring, clear, copy and move give exactly the character sequence that the same operation gives on a plain list of characters, whatever operations came before. "
 "An insert or substring position past the end, and a checked index at or past it, throws std::out_of_range and leaves the string unchanged; a copy never changes when the original does.",
 ["inputs","histories"],"two start strings of up to 2 and 1 characters, every history of 2 (thorough: 3) out of 16 editing operations with every position and count argument in range and just outside",
 "Tests use single literal operations; histories and boundary positions are unbounded.",
 [ST],[("operator+ += Append PushBack Insert Substring Clear At",ST),("copy/move",ST)],["String::str()","size()"])
prop("C06","String comparison is one consistent lexicographic order",
 "The six comparison operators between strings, and between a string and C text, agree with the lexicographic order of the code-point sequences, so exactly one of less, equal and greater holds and the order is transitive.",
 ["inputs"],"every pair of strings of up to 2 (thorough: 3) characters of 1 to 4 bytes",
 "Tests check one equality; order consistency quantifies over all pairs.",
 [ST],[("comparison operators",ST)],["comparison operators"])
prop("C07","Character classification matches Unicode on every code point",
 "IsSpace is true exactly for the Unicode White_Space characters, and IsDigit exactly for the decimal digits (category Nd) of the Basic Multilingual Plane. "
 "IsUppercase and IsLowercase hold only for Unicode uppercase and lowercase letters, and for all of the basic Latin, Greek and Cyrillic alphabets; the letters are exactly the cased ones, and no code point is both upper- and lowercase or both a letter and a digit or space. ToDigit gives the numeric value of an ASCII digit and -1 for anything else.",
 ["inputs"],"every 32-bit code point value",
 "There is no test of classification; the tables span over a million code points.",
 [CU],[("IsSpace IsDigit IsLetter IsUppercase IsLowercase ToDigit",CU)],["return values"])
prop("C08","Case mapping is the Unicode simple mapping or the identity, never anything else",
 "For every code point, upper- and lowercasing give either the Unicode simple case mapping of it or the code point itself (and the capital sharp s for the small one), letters of the basic Latin, Greek and Cyrillic alphabets and everything classified as an uppercase letter are always mapped, and code points without case are never changed. "
 "Mapping is idempotent, and mapping a string maps each character independently and keeps the length.",
 ["inputs"],"every 32-bit code point value; every string of up to 1 character (thorough: 2)",
 "No test exercises case mapping; wrong offsets in one block out of hundreds are invisible to samples.",
 [CU,ST],[("ToUppercase / ToLowercase",CU),("String::ToUppercase / ToLowercase",ST)],["return values"])
prop("C09","Format substitutes exactly the argument each placeholder names",
 "In a format, text outside placeholders is copied, doubled braces give single ones, {} takes the arguments in turn (with a single argument always that one), {N} and {N:spec} take argument N, and arguments appear as their plain text (integers in decimal with sign, booleans as true/false, strings as they are). "
 "A placeholder that names no argument throws an exception derived from std::runtime_error instead of producing output.",
 ["inputs"],"every format of up to 3 (thorough: 4) segments of text, doubled braces and five kinds of placeholder with 0 to 3 arguments; every 16-bit (thorough: 32-bit) integer argument",
 "Tests format a handful of literals; the combination of explicit, automatic and formatted placeholders is unbounded.",
 [ST],[("String::Format",ST),("Formatter::ToString",ST)],["returned text or exception"])
prop("C10","Format width, fill, alignment and precision lay text out as specified",
 "A specification [[fill]align][width][.precision][type] pads the value with the fill character (space by default) to the width, on the right for '<' or none, on the left for '>', and around it for '^' with the odd character on the right, and never truncates it. "
 "With type f, precision P keeps exactly P digits after the point (cut off or zero-extended), precision 0 keeps the text up to the point without the point, and without a precision the text stays as it is.",
 ["inputs"],"every fill character, alignment, width 0..5 (thorough: 11) and precision 0..3 (thorough: 5) with texts of up to 2 (3) characters and decimal numbers of up to 2+2 (2+4) digits",
 "A few literal layouts are sampled at most; fill, width, alignment and precision combine freely.",
 [ST],[("Formatter::MakeSpacifier / ProcessAlignment / ProcessFloating",ST)],["returned text"])
prop("C11","Format never reads outside its input, whatever the format string",
 "For every format string and argument list, formatting terminates with a string or with an exception derived from std::exception, never touches memory outside the format or the arguments, and a mismatched or single brace is always an exception.",
 ["inputs"],"every format of up to 3 symbols of the syntax alphabet (thorough: 5) and of up to 2 (thorough: 3) arbitrary bytes, with 0, 1 and 2 arguments",
 "Malformed formats are untested.",
 [ST],[("String::Format parsing loop",ST)],["termination, memory safety, exception type"])
prop("C12","Text helpers split, repeat, trim and classify as defined",
 "Split gives the fields between delimiters so that joining them with the delimiter gives the text back (one trailing delimiter aside), Repeat gives exactly count copies, IsNumber holds exactly for non-empty all-digit text, and the first/last non-space index is the smallest/largest index of a non-space character, or the size when there is none.",
 ["inputs"],"every text of up to 3 bytes and every delimiter (thorough: 5), every count 0..5, every text of up to 2 or 3 characters of 1 to 3 bytes including Unicode spaces",
 "Untested; the edge cases are empty text, count zero and index zero.",
 [SU],[("Split Repeat IsNumber FindFirstNonSpace FindLastNonSpace",SU)],["return values"])
prop("C13","Escape sequences are replaced by exactly the characters they denote",
 "EscapeString replaces each two-character escape of a quote, question mark, backslash, slash, a, b, f, n, r, t, v by the character it denotes and a \\uXXXX sequence with four hexadecimal digits (other than U+0000 and surrogates) by the character with that code, keeps everything else as it is, invalid escapes included, and never reads outside the text.",
 ["inputs"],"every ASCII text of up to 3 (thorough: 4) and every text of up to 2 (3) characters of 1 to 4 bytes; \\u followed by every 0 to 4 ASCII characters",
 "Untested.",
 [SU],[("EscapeString",SU)],["returned text"])
prop("C14","A string builder accumulates exactly what was appended",
 "After any sequence of appends, line appends and format appends the builder's text is the concatenation of what it was built from and what was appended; a copy or move of a builder continues its text, builders that were copied stay independent, and nothing is leaked.",
 ["histories","inputs"],"every history of up to 2 operations (thorough: 3) on two builders with arbitrary pieces of up to 2 characters",
 "Untested; the property is about operation histories.",
 [SB],[("Append / copy / move / ToString",SB)],["StringBuilder text"])
prop("C15","Pattern search by KMP says exactly whether the pattern occurs",
 "Searching a pattern in a text is true exactly when the pattern occurs in the text as a contiguous piece (the empty pattern occurs in every text), without reading outside either text.",
 ["inputs"],"every pattern of 0..3 bytes and every text of 0..5 bytes (thorough: 4 and 7)",
 "Untested; self-overlapping patterns are combinatorial.",
 [KMP],[("failure function and scan",KMP)],["return value"])
prop("C16","Big integer addition, subtraction and comparison are exact",
 "For integers of any sign and length, the sum and difference are the mathematically exact ones, and the six comparison operators agree with the mathematical order.",
 ["inputs"],"every pair of signed integers of up to 3 decimal digits each (thorough: 4), every combination of lengths and signs, carries and borrows over all digits",
 "The numeric tests are placeholders.",
 [BI],[("Add / Subtract / LessThan and operators",BI)],["ToString()","comparison operators"])
prop("C17","Big integer multiplication, division, remainder, power and root are exact",
 "The product and power are the exact ones, division truncates toward zero with a remainder r of smaller magnitude such that a = q*b + r with the sign of a, the square root is the integer floor, and dividing by zero or rooting a negative throws instead of giving a value.",
 ["inputs"],"multiplication and division: 2 by 2 digits (thorough: 3 by 2), all signs; power: base of 1 digit (2), exponent 0..3 and every negative one; root: up to 2 digits (3)",
 "The numeric tests are placeholders.",
 [BI],[("Multiply / Divide / Modulo / Pow / Sqrt",BI)],["ToString()"])
prop("C18","Big integers are read and written exactly and in one canonical form",
 "Every optionally signed run of decimal digits is accepted, leading zeros aside it prints back as the same digits, and zero is never negative; every other text throws. Native integers convert to the same decimal text.",
 ["inputs"],"every text of up to 3 characters of 1 or 2 bytes (thorough: 4); every run of up to 3 digits (4); every 16-bit native integer and windows of 256 values at the edges of the 64-bit range",
 "The numeric tests are placeholders.",
 [BI],[("constructors / ToString",BI)],["ToString()","exceptions"])
prop("C19","Big decimal numbers keep their value through text and arithmetic",
 "An optionally signed run of digits with at most one point among or next to them is accepted and prints back with the same value, everything else throws; sum, difference, product, power and absolute value are exact, comparison agrees with numeric order whatever the number of digits, a quotient is never too large and off by less than one, exact when it is whole, and dividing by zero throws; a square root is never too large and off by less than one unit of the number's last fraction digit, exact for squares, and the root of a negative number throws.",
 ["inputs"],"every signed decimal of up to 2 integer and 3 fraction digits (thorough: 3 and 4), every text of up to 3 characters; pairs of decimals of up to 1+1 or 1+2 digits (2+2), exponents 0..3 and some up to 31; roots of decimals of up to 1+1 (1+2) digits and of some longer ones",
 "The numeric tests are placeholders.",
 [BF],[("constructors / ToString / Add / Subtract / Multiply / Divide / Equal / LessThan / Pow / Sqrt",BF)],["ToString()","comparison operators","exceptions"])
prop("C20","JSON parsing is total and memory-safe on every input text",
 "For every valid UTF-8 text, parsing terminates with either a document or an error, without touching memory outside the text and without letting any exception escape, and destroying the result releases everything that was allocated. However deep the text is nested, the stack does not overflow: text whose objects and arrays are nested more than 512 deep is an error.",
 ["inputs"],"every text of up to 3 (thorough: 4) characters of 1 or 2 bytes, and up to 2 (3) such characters at 8 kinds of place inside longer documents with 4 ends; long documents with one arbitrary character; nesting around 512",
 "The JSON tests parse nine fixed documents; truncation at each position and odd nesting are not covered.",
 [JP,JD,JJ],[("JsonParser token loop, position checks",JP)],["Json::Parse result"])
prop("C21","JSON parsing accepts exactly the well-formed documents, with their structure",
 "A text is accepted exactly when it is one JSON object with nothing but white space around it, following the JSON grammar (leniently: any Unicode white space, control characters inside strings, a leading plus and leading zeros in numbers); the resulting tree has exactly the members, elements, order, types and values of the text, the last value of a repeated key standing at its first place; otherwise, or when it is nested more than 512 deep, an error is reported.",
 ["inputs"],"every run of up to 5 tokens (thorough: 6) from the JSON grammar alphabet inside braces, and up to 2 (3) arbitrary ASCII characters at 8 kinds of place inside documents with 4 ends",
 "Nine fixed documents cannot settle acceptance over all token sequences.",
 [JP],[("ParseObject / ParseArray / ParseMember / literals",JP)],["Json::Parse result, accessors"])
prop("C22","JSON string values are unescaped exactly",
 "A JSON string, key or value, equals the quoted text with each escape sequence replaced by the character it denotes, including \\uXXXX as the character with that code (other than U+0000) and surrogate pairs as the one character they encode; a string ends at its first unescaped quote, and invalid escapes and lone surrogates are errors.",
 ["inputs"],"every string body of up to 3 (thorough: 4) characters of 1 or 2 bytes as key and value; \\uXXXX with two arbitrary characters among the four, surrogate pairs with an arbitrary digit in each half",
 "Tests contain at most simple strings.",
 [JP],[("ParseString",JP)],["Json::Parse result"])
prop("C23","JSON numbers are read with their exact value and kind",
 "A number token consisting of an optional sign and digits is read as that integer (and never as another one when it does not fit into 64 bits), one with a fraction or exponent as the nearest floating value, and a token that is not a number is an error; true, false and null are recognised wherever they stand, whatever characters precede them.",
 ["inputs"],"every token of up to 3 (thorough: 4) characters over digits, signs, point, e, E and x; every integer of up to 6 (9) digits; literals after every character",
 "Tests contain a few fixed numbers.",
 [JP],[("ParseNumber / ParseBoolean / ParseNull",JP)],["Json::Parse result"])
prop("C24","JSON written out reads back as the same document",
 "Writing any tree of JSON values to text and parsing that text gives an equal tree (objects, arrays, strings with any characters, integers, floats, booleans, null; nested at most 512 deep), also when the text goes through a standard stream or a file.",
 ["inputs","histories"],"single members with string contents or keys of up to 2 arbitrary characters of 1 or 2 bytes, 16-bit and extreme integers, 25 floats; trees of up to 2 members nested up to three deep; compact and indented output",
 "The output test prints one fixed document.",
 [JD,JP,JJ],[("MakeOutput / operator<<",JD)],["serialised text, parsed tree"])
prop("C25","JSON values own their content: copies are deep, nothing leaks or dangles",
 "Through any sequence of building, copying, moving, assigning (also from an own descendant), replacing and removing members or elements, each value keeps the content it was given, changing one value never changes a copy, and every allocation is released exactly once.",
 ["histories"],"every history of 3 operations (thorough: 4) on two values and on two documents",
 "Ownership errors show only under particular operation orders; tests perform none.",
 [JD],[("copy/move constructors and assignment, DestroyUnion",JD)],["values, heap state"])
prop("C26","JSON access by key, index or type is checked",
 "Reading a member, element or typed value that exists gives exactly it. Reading a member or element that does not exist, or from a value that is no object or array, throws an exception derived from std::exception on a constant value (the non-constant index operators create it instead); a typed getter on a value of another kind gives the default of its type. Storage of another type is never touched.",
 ["inputs","histories"],"every value kind with up to 2 members or elements of arbitrary content, every key of up to 1 character and every 64-bit index",
 "Tests access only existing members.",
 [JD,JJ],[("At / operator[] / As* / Is*",JD)],["return values, exceptions"])
prop("C27","An expected value carries exactly the success or error it was given",
 "An Expected is successful exactly when it was built or assigned from a value, unwrapping gives that value and unwrapping the other side throws, and each combinator (and-then, or-else, map, map-error, inspect, fold, unwrap-or) calls its function exactly when it applies, with the held content, and passes the other case through unchanged.",
 ["inputs","histories"],"every initial state and 32-bit payload, every history of 2 copy/move/assign operations, every combinator with an arbitrary function result",
 "The Result tests use fixed payloads and single steps.",
 [EX,UX],[("tagged union, combinators",EX)],["IsOk/IsError, Unwrap*, combinators"])
prop("C28","An expected value's payloads are constructed and destroyed exactly once",
 "Through every sequence of construction, copy, move and assignment between success and error states, also when a payload's copy throws, each payload object that was constructed is destroyed exactly once and only live objects are used.",
 ["histories","fault_sequences"],"every history of 3 operations (thorough: 5) on two Expected objects with tracked payloads; a throwing copy at every position of histories of 2 (3); payload moves do not throw",
 "Object lifetimes in the union are invisible to value tests.",
 [EX],[("copy/move/assignment/destructor of the union",EX)],["payload live counts"])
prop("C29","A shared pointer frees its object exactly when the last owner goes",
 "Through every sequence of creating, copying, moving, assigning, resetting and destroying shared pointers, empty ones and ones held inside the owned objects included, an object stays alive while an owner exists and is destroyed exactly once, with all memory released, when the last owner goes; dereferencing an empty pointer throws.",
 ["histories"],"every history of 3 operations (thorough: 4) on three shared pointers and the links of their objects, without cycles",
 "The memory test is a placeholder.",
 [SP],[("reference counter, Release",SP)],["payload live count, heap state"])
prop("C30","A unique pointer owns at most one object and frees it exactly once",
 "Through every sequence of creating, moving, assigning, releasing, resetting, swapping and destroying unique pointers, each object is held by at most one pointer, a moved-from pointer is empty, and each object is destroyed exactly once; the raw pointer wrapper destroys its object exactly when told to.",
 ["histories"],"every history of 4 operations (thorough: 5) on two unique pointers and on two raw wrappers",
 "The memory test is a placeholder.",
 [UP],[("Reset / Release / move",UP)],["payload live count, heap state"])
prop("C31","A weak pointer never keeps its object alive",
 "A weak pointer observes an object without owning it: the object is destroyed when its last shared owner goes, and from then on the weak pointer reports it expired and locking gives an empty pointer.",
 ["histories"],"every history of 3 operations (thorough: 4) on two shared and two weak pointers",
 "The memory test is a placeholder.",
 [WP,SP],[("WeakPtr",WP)],["Expired/Lock, payload live count"])
prop("C32","Shared pointer counting is safe under concurrent copies and releases",
 "When several threads copy, drop, observe and lock their own shared and weak pointers to one object at the same time, under every interleaving the object is destroyed exactly once, after the last owner is gone, no access touches freed memory, and no two accesses race under the C++11 memory orders used.",
 ["schedules"],"every sequentially consistent interleaving at atomic-operation granularity of 2 threads and the main thread with 2 operations each on owners (thorough: 3 threads with 1), or 1 operation each on owners and observers",
 "There is no threaded test, and a schedule-dependent fault would show only under rare timing.",
 [SP],[("atomic reference counter",SP)],["payload live count under all schedules"])
prop("C33","Mixed-sign integer comparison is mathematically right",
 "The safe integer comparisons of two integers of any signedness and width give the result of comparing their mathematical values.",
 ["inputs"],"every pair of values of every pair of the ten integer types from signed char to unsigned long long",
 "Untested; the wrap-around cases are a vanishing fraction of all pairs.",
 [CMP],[("cmp_eq / cmp_less ...",CMP)],["return values"])
prop("C34","Random values always lie within the requested range",
 "Whatever the generator produces, a random number from [a, b] is at least a and at most b, every value of a small integer range can be drawn, and a random boolean of probability p is accepted exactly for p in [0, 1], never true for 0 and always true for 1.",
 ["inputs","configurations"],"integers of 16, 32 and 64 bits: every range of width up to 255 and every generator output; ranges of 1..6 values for reachability; sample bounds for floating types",
 "Random output is not reproducible in tests.",
 [RND],[("Random helpers",RND)],["return values"])
prop("C35","Map helpers list every key and every value once, in map order",
 "For every map, the key list and the value list have one entry per map entry, in iteration order, so that zipping them gives the map back.",
 ["inputs"],"every map and multimap of up to 3 arbitrary integer entries",
 "The collections test is a placeholder.",
 [MU],[("GetMapKeys / GetMapValues",MU)],["return values"])
prop("C36","A file object reads back exactly what was written",
 "Through any sequence of writing, appending, positioning, reading whole text or lines, erasing, closing and re-opening, the file holds and the reads return exactly what a byte-array model gives; the end of file, once met, lasts until the file is positioned, erased or re-opened, erasing starts over at the beginning, and a position that cannot be set or a file without a name is an exception that changes nothing.",
 ["histories"],"every history of 3 (thorough: 4) operations with contents of arbitrary ASCII bytes, including the empty and the absent file; texts of up to 2 characters of 1 to 4 bytes",
 "The file test is a placeholder.",
 [FI],[("File open/read/write/seek",FI)],["file content, returned text"])
prop("C37","Console streams pass text through unchanged",
 "Writing formatted text or lines emits exactly that text (and one newline per line) to the chosen output, and reading a line returns exactly the next line of the input, reading a character the first character of the next line (an empty one when the line is empty), also when the input has ended. Extracting a String from a standard stream takes the next line, inserting it writes its bytes.",
 ["inputs"],"every ASCII input of up to 3 (thorough: 4) bytes with three reads, every text of up to 2 characters of 1 to 4 bytes",
 "The IO test is a placeholder.",
 [IO],[("Console Write/WriteLine/ReadLine/ReadChar",IO)],["emitted and returned text"])
prop("C38","A test run executes every registered test once and fails if any test fails",
 "Running the registry executes each registered test exactly once, also when tests fail by assertion or throw, counts passed and failed tests correctly, and returns non-zero exactly when a test failed in that run, however often the tests were run before; each assertion macro fails exactly when its condition does not hold.",
 ["inputs","histories"],"every outcome combination of 2 or 3 (thorough: up to 4) tests in up to 3 suites; every pair of 32-bit operands of each assertion",
 "The framework's own verdict is what tests rely on; no test can fail without failing the run.",
 [TR,"__Testing/Macro/Assert.h"],[("RunAll / assertion macros",TR)],["exit status, counts"])
prop("C39","Application start-up happens once and keeps the given arguments",
 "The first initialisation succeeds and stores its own copy of exactly the program's arguments in order; every later one throws std::runtime_error and changes nothing.",
 ["inputs","histories"],"every argument vector of up to 2 arguments of up to 2 bytes; every history of 3 calls",
 "No test initialises the application.",
 [APP],[("Application::Initialize",APP)],["stored arguments"])
prop("C40","Type traits answer as the language defines them",
 "Each compile-time trait and type transformation gives the answer that the language (or the standard trait of the same meaning) gives.",
 ["programs"],"every type",
 "The traits test is a placeholder.",
 ["__Core/Traits/Types/Primary.h","__Core/Traits/Constraints/Primary.h"],[("trait templates","__Core/Traits/Types/Primary.h")],["compile-time constants"])
prop("C41","The size of an object or type is reported exactly in the asked unit",
 "SizeOf reports the number of bytes of the type or object by default, and exactly eight times as many when bits are asked for.",
 ["inputs"],"the fundamental types, arrays and a class type, both units chosen by an arbitrary selector",
 "Untested.",
 [DS],[("SizeOf",DS)],["return values"])
prop("C42","The bounds of an integer type contain all of its values",
 "For every integer type, MinValue and MaxValue are values of the type between which every value of the type lies, and ValueRange is exactly that pair.",
 ["inputs"],"every value of the ten integer types and char",
 "Untested.",
 ["__Core/Numeric/Utility/Limits.h"],[("MinValue / MaxValue / ValueRange","__Core/Numeric/Utility/Limits.h")],["return values"])

prop("C43","A JSON document is what its last text or assignment made it",
 "Whatever happened to a document before, after it is given a text - by construction, assignment, parsing or a stream - it holds exactly that text's members and no error when the text is a document, and no members and an error when it is not; a copy or move carries members and error over and leaves other documents alone, a moved-from document has no error, assigning a document to itself changes nothing, and added and removed members are the only ones that change. Each kind of error has its own description, and only success is described as no error.",
 ["inputs","histories"],"histories of 2 (thorough: 3) operations on two documents with seven (three) texts; every pair of error codes",
 "The JSON tests parse one text per document.",
 [JJ,JU],[("Parse / operator= / constructors / AddMember / RemoveMember",JJ),("GetErrorString",JU)],["HasError / GetError / GetErrorString / GetType / members"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
