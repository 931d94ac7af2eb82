"""Symbolic jobs per property and tier: (entry, constant args, time budget in s, reachability witnesses)."""
PROPS = {
    "C01": dict(
        bounds={"quick": "names: every byte string up to 8 bytes; pairs of ASCII names up to 6+6 bytes",
                "thorough": "names: every byte string up to 12 bytes; pairs of ASCII names up to 12+12 bytes"},
        outside="longer names",
        quick=[("c01_ctor", [n], 40, [1, 2] if n else [1]) for n in (0, 1, 2, 3, 5, 8)]
        + [("c01_eq", [a, b], 30, [1, 2] if a == b else [2]) for a, b in ((1, 1), (2, 2), (4, 4), (6, 6), (2, 3), (0, 3))]
        + [("c01_eq_nonascii", [n], 30) for n in (2, 3, 4)] + [("c01_eq_special", [n], 30) for n in (0, 2)] + [("c01_hash", [n], 20) for n in (1, 6)] + [("c01_const", [i, 22], 60) for i in (0, 22, 44)],
        thorough=[("c01_ctor", [n], 900, [1, 2]) for n in (1, 2, 3, 4, 5, 6, 8, 10, 12)]
        + [("c01_eq", [a, b], 100, [1, 2] if a == b else [2]) for a in (1, 4, 8, 12) for b in (1, 4, 8, 12)]
        + [("c01_eq_nonascii", [n], 300) for n in (2, 4, 6, 8)] + [("c01_hash", [n], 60) for n in (1, 6, 12, 16)],
    ),
    "C02": dict(
        bounds={"quick": "histories of up to 3 operations (8 kinds of operation, 2 names with case variants, 2 values) on trailers, requests and responses",
                "thorough": "histories of up to 4 operations"},
        outside="longer histories; empty value lists",
        quick=[("c02_trailers", [3, 8], 90, []), ("c02_request", [3, 8], 90, []), ("c02_response", [3, 8], 90, []), ("c02_trailers", [1, 8], 20, [])],
        thorough=[("c02_trailers", [4, 8], 800, []), ("c02_request", [4, 8], 800, []), ("c02_response", [4, 8], 800, [])],
    ),
    "C03": dict(
        bounds={"quick": "values: every byte string up to 8 bytes; lists built by up to 4 operations, lists of up to 12 values collected from iterators with every size promise; cookies with names and values of 3 characters",
                "thorough": "values: every byte string up to 12 bytes; lists built by up to 5 operations"},
        outside="longer values and lists",
        quick=[("c03_ctor", [n], 40, [1, 2] if n else [1]) for n in (0, 1, 2, 4, 6, 8)] + [("c03_eq", [a, b], 20, [1, 2] if a == b else [2]) for a, b in ((1, 1), (3, 3), (8, 8), (2, 3))]
        + [("c03_list", [k, 0], 40) for k in (1, 2, 3, 4)]
        + [("c03_collect", [k], 40) for k in (0, 1, 4, 12)] + [("c03_from", a, 40) for a in ([1, 1], [2, 0], [3, 3])],
        thorough=[("c03_ctor", [n], 300, [1, 2]) for n in (1, 4, 8, 10, 12)] + [("c03_eq", [a, b], 60, [1, 2] if a == b else [2]) for a, b in ((12, 12), (16, 16), (7, 8))]
        + [("c03_list", [k, 0], 300) for k in (4, 5)],
    ),
    "C04": dict(
        bounds={"quick": "every second of the years 1970-2400 and 9990-9999 through the Date header, of 2096-2104 and 1999-2000 through the five other date-carrying headers",
                "thorough": "every second of the years 1970-9999 through the Date header; 1970-2400 through the five others"},
        outside="instants before 1970 or after 9999 (documented panics); sub-second parts",
        quick=[("c04_format", [1970, 431, 0], 120), ("c04_format", [9990, 10, 0], 30), ("c04_round", [1970, 431, 0], 120), ("c04_round", [9990, 10, 0], 30)]
        + [(e, [y, n, w], 30) for w in (1, 2, 3, 4, 5) for y, n in ((2096, 9), (1999, 2)) for e in ("c04_format", "c04_round")],
        thorough=[("c04_format", [1970, 8030, 0], 400), ("c04_round", [1970, 8030, 0], 400)]
        + [(e, [1970, 431, w], 100) for w in (1, 2, 3, 4, 5) for e in ("c04_format", "c04_round")],
    ),
    "C05": dict(
        bounds={"quick": "every second of 1970-9999 as IMF-fixdate, of 1970-2069 as RFC 850 and of 1970-2400 as asctime date; every ASCII string of each length up to 40 (the year digits of otherwise well-formed dates limited to 20, 21 and 00, 04); two arbitrary bytes anywhere in a valid date",
                "thorough": "the same through all six headers; every second of 1970-9999 as asctime date"},
        outside="the weekday of an otherwise valid date (either answer is accepted when it does not fit); strings over 40 characters; leading or trailing control characters other than blanks",
        quick=[("c05_valid", [1, 1970, 100, 1], 60)] + [("c05_valid", [0, y, 2010, 0], 60) for y in (1970, 3980, 5990, 7990)] + [("c05_valid", [f, 1970, 431, f], 60) for f in (2, 3)] + [("c05_valid", [0, 9998, 2, w], 20) for w in (4, 5)]
        + [("c05_any", [n, 0], 60, [1, 2]) for n in (24, 29, 30, 31, 32, 33)] + [("c05_any", [n, 1], 20, [2]) for n in (0, 1, 2, 3, 10, 22, 23, 25, 26, 28, 34, 40)]
        + [("c05_edit", [f, a, 2, 0], 20, []) for f in (0, 1, 2) for a in range(0, 31 if f == 1 else 28 if f == 0 else 23, 2)] + [("c05_blank", [f, 1, 2, 0], 10) for f in (0, 1, 2)],
        thorough=[("c05_valid", [f, 1970, 100 if f == 1 else 431, f + 1], 120) for f in (0, 1, 2, 3)] + [("c05_valid", [2, 1970 + 500 * i, 500 if i < 16 else 30, 2], 120) for i in range(17)] + [("c05_valid", [0, 9900, 100, w], 60) for w in (0, 1, 2, 3, 4, 5)]
        + [("c05_any", [n, w], 60, [1, 2]) for n in (24, 29, 30, 31, 32, 33) for w in range(6)] + [("c05_any", [n, 0], 20, [2]) for n in range(0, 45) if n not in (24, 29, 30, 31, 32, 33)]
        + [("c05_edit", [f, a, 3, 0], 30, []) for f in (0, 1, 2) for a in range(0, 30 if f == 1 else 27 if f == 0 else 22, 3)] + [("c05_blank", [f, 3, 3, w], 10) for f in (0, 1, 2) for w in range(6)],
    ),
    "C06": dict(
        bounds={"quick": "every ASCII string up to 6 characters; 3-6 arbitrary ASCII characters inside ten templates (after the type, inside parameter names, unquoted and quoted values, around charset) with six continuations; arbitrary UTF-8 of 4 bytes (no panic)",
                "thorough": "every ASCII string up to 8 characters; 4-7 characters inside the templates"},
        outside="longer strings that are not instances of the templates; what parameter values containing non-ASCII characters are serialised to",
        quick=[("c06_parse", [0, n, 0], 40, [1, 2] if n > 2 else [2]) for n in (0, 1, 3, 5, 6)]
        + [("c06_parse", [a, n, b], 40) for a, n in ((1, 4), (2, 4), (3, 4), (4, 4), (5, 4), (6, 5), (7, 3), (8, 3), (9, 3)) for b in range(6)]
        + [("c06_round", [a, 3, b], 40) for a in (2, 3, 4, 6) for b in (0, 2, 5)] + [("c06_utf8", [a, 4, b], 40) for a, b in ((0, 0), (3, 5), (4, 1))],
        thorough=[("c06_parse", [0, n, 0], 400, [1, 2]) for n in (7, 8)]
        + [("c06_parse", [a, n, b], 400) for a, n in ((1, 5), (2, 6), (3, 6), (4, 6), (5, 6), (6, 6), (7, 5), (8, 5), (9, 6)) for b in range(6)]
        + [("c06_round", [a, 5, b], 400) for a in (2, 3, 4, 6) for b in (0, 2, 5)] + [("c06_utf8", [a, 6, b], 400) for a, b in ((0, 0), (3, 5), (4, 1))],
    ),
    "C07": dict(
        bounds={"quick": "types with names of up to 3+3 letters (including wildcards) and up to 3 parameters of 8 shapes; up to 3 parameter removals; all predefined types; extensions up to 6 bytes; content to sniff up to 14 bytes",
                "thorough": "names of up to 4+4 letters, 4 removals, extensions up to 8 bytes, content up to 18 bytes"},
        outside="longer types; whether the sniffed type is the right one (a dependency decides it)",
        quick=[("c07_subset", [1, a, b], 30) for a in range(7) for b in range(7)] + [("c07_subset", [2, 1, 1], 40), ("c07_subset", [2, 5, 2], 40), ("c07_subset", [3, 0, 0], 60)]
        + [("c07_trans", [1, a, b, c], 30, []) for a, b, c in ((5, 4, 1), (5, 5, 2), (6, 1, 1), (4, 1, 0), (5, 2, 0))] + [("c07_eq", [1, a, b], 30) for a in range(7) for b in range(a, 7)]
        + [("c07_remove", [a, k], 30) for a in range(8) for k in (1, 3)] + [("c07_const", [], 20)] + [("c07_ext", [n], 30) for n in (2, 3, 4, 5)] + [("c07_ext", [n], 30, []) for n in (0, 1, 6)]
        + [("c07_sniff", [n], 60, [1, 2] if n > 1 else [2]) for n in (0, 1, 2, 4, 8, 12, 14)],
        thorough=[("c07_subset", [2, a, b], 100) for a in range(7) for b in range(7)] + [("c07_subset", [4, 0, 0], 200)] + [("c07_eq", [2, a, b], 100) for a in range(7) for b in range(a, 7)]
        + [("c07_trans", [1, a, b, c], 60, []) for a in range(7) for b in range(7) for c in range(7)] + [("c07_remove", [a, 4], 60) for a in range(8)] + [("c07_ext", [n], 100, []) for n in (6, 7, 8)]
        + [("c07_sniff", [n], 200, [1, 2]) for n in (16, 18)],
    ),
    "C11": dict(
        bounds={"quick": "ages 0-9999, 999990-1000010 and six boundary values; every ASCII Age value of up to 4 characters, or 2 after 18 digits; lists of one directive with ages 0-999, two with 0-99, three with 0-9; four list layouts of two directives with letters of either case; up to 3 ASCII characters as an age; up to 3 clear directives; up to 5 ASCII characters before, inside or after them",
                "thorough": "lists of up to 4 directives; Age values up to 8 characters; 7 characters around clear directives"},
        outside="a leading '+' in numbers; quoted ages; several '='; empty lists",
        quick=[("c11_age", [0, 9999], 60), ("c11_age", [999990, 20], 20), ("c11_age_big", [], 20)] + [("c11_age_any", [n, 0], 40, [1, 2] if n else [2]) for n in (0, 1, 3, 4)] + [("c11_age_any", [2, 18], 30, [1, 2])]
        + [("c11_cc", [1, 999], 40), ("c11_cc", [2, 99], 60), ("c11_cc", [3, 9], 60), ("c11_cc_big", [], 20)] + [("c11_cc_read", [s], 20) for s in range(4)]
        + [("c11_cc_bad", [n], 20, [2]) for n in (0, 1, 2, 3)] + [("c11_valid", [], 20)] + [("c11_clear", [k], 20) for k in (0, 1, 2, 3)] + [("c11_clear_any", [n, h], 30, []) for n in (0, 1, 3, 5) for h in range(4)],
        thorough=[("c11_age", [0, 99999], 300), ("c11_cc", [4, 3], 600), ("c11_cc", [2, 9999], 600), ("c11_cc", [3, 99], 600), ("c11_clear", [4], 60)] + [("c11_age_any", [n, 0], 300, [1, 2]) for n in (5, 6, 7, 8)]
        + [("c11_age_any", [n, m], 200, [1, 2]) for n, m in ((3, 17), (4, 16), (2, 20))] + [("c11_clear_any", [n, h], 200, []) for n in (6, 7) for h in range(4)] + [("c11_cc_bad", [n], 60, [2]) for n in (4, 5)],
    ),
    "C12": dict(
        bounds={"quick": "tags of up to 6 printable characters without quotes; every ASCII ETag value of up to 5 characters, alone or around quotes and W/; lists of up to 3 tags; every ASCII list value of up to 5 characters in four settings; up to 3 Vary names, Vary values up to 5 characters",
                "thorough": "tags of up to 16 characters; lists of 4 tags; list values of up to 7 characters"},
        outside="longer values; tags with control characters written by the program",
        quick=[("c12_etag", [n], 20) for n in (0, 1, 3, 6)] + [("c12_etag_any", [n, 0, 0], 20, [1, 2] if n > 1 else [2]) for n in (0, 1, 3, 5)] + [("c12_etag_any", [n, h, t], 20, [1, 2]) for n in (4,) for h in (1, 2, 3) for t in (0, 1)]
        + [("c12_eq", [n], 20) for n in (1, 2, 4)] + [("c12_list", [w, k, n], 30) for w in (0, 1) for k, n in ((0, 0), (1, 3), (2, 2), (3, 1))] + [("c12_list_any", [w, n, h], 40, [1, 2]) for w in (0, 1) for n, h in ((4, 0), (5, 1), (4, 2), (4, 3))]
        + [("c12_vary", [k, n], 20) for k, n in ((0, 0), (1, 3), (2, 2), (3, 1))] + [("c12_vary_any", [n], 20) for n in (3, 5)],
        thorough=[("c12_etag", [16], 60), ("c12_eq", [8], 60)] + [("c12_etag_any", [9, h, t], 60, [1, 2]) for h in (1, 2, 3) for t in (0, 1)] + [("c12_list", [w, 4, 2], 300) for w in (0, 1)]
        + [("c12_list_any", [w, n, h], 400, [1, 2]) for w in (0, 1) for n in (6, 7) for h in range(4)] + [("c12_vary", [3, 3], 300), ("c12_vary", [4, 1], 300), ("c12_vary_any", [7], 300)],
    ),
    "C13": dict(
        bounds={"quick": "credentials, user names, passwords and realms of up to 6 characters (user name and password together up to 6); every spelling of each scheme name; Basic credentials from every 3 bytes and every 4 or 8 characters of base64 text; ASCII values of up to 5 characters alone or inside five WWW-Authenticate forms",
                "thorough": "user name and password of up to 6 characters each; realms of up to 8; every 4 decoded bytes"},
        outside="user names containing a colon (documented as unsupported); unpadded base64; parameters after the realm; realms with control or non-ASCII characters",
        quick=[("c13_authz", [n], 20) for n in (1, 3, 6)] + [("c13_authz_any", [n, 0], 20, [2] if n < 5 else []) for n in (0, 3, 5)] + [("c13_authz_any", [n, 1], 20, [1, 2] if n == 4 else []) for n in (0, 4, 5)] + [("c13_authz_any", [2, f], 20) for f in range(2, 12)]
        + [("c13_basic", [a, b], 40) for a, b in ((0, 0), (1, 2), (2, 2), (3, 1), (0, 4), (3, 3))] + [("c13_basic_bytes", [n], 60, [1, 2] if n else [2]) for n in (0, 1, 2, 3)] + [("c13_basic_any", [4], 30, [1, 2]), ("c13_basic_any", [5], 30, [2]), ("c13_basic_any", [8], 90, [1, 2])]
        + [("c13_basic_scheme", [], 20)] + [("c13_www", [n], 20) for n in (0, 1, 3, 5)] + [("c13_www_any", [n, f], 20, []) for n in (0, 2, 4, 5) for f in range(5)],
        thorough=[("c13_authz", [12], 60)] + [("c13_authz_any", [6, f], 200, []) for f in range(12)] + [("c13_basic", [a, b], 200) for a, b in ((4, 4), (6, 6), (0, 9))] + [("c13_basic_bytes", [4], 300, [1, 2]), ("c13_basic_any", [12], 900, [1, 2])]
        + [("c13_www", [n], 200) for n in (7, 8)] + [("c13_www_any", [7, f], 200, []) for f in range(5)],
    ),
    "C14": dict(
        bounds={"quick": "one proposal with any weight of three decimals, up to three with coarser weights, with and without wildcard; weights of up to three printable characters; every f32 in the constructors; three-item lists in four layouts; every ASCII value of up to 5 characters (no panic, no server error)",
                "thorough": "four proposals; weights of up to five printable characters; values of up to 7 characters"},
        outside="number spellings beyond RFC 9110's qvalue that denote a number between 0 and 1; weights finer than three decimals",
        quick=[("c14_enc", [w, k, f], 40) for w in (0, 1) for k, f in ((0, 0), (1, 1), (2, 0), (3, 0))] + [("c14_accept", [k, f], 40) for k, f in ((0, 0), (1, 1), (2, 0), (3, 0))] + [("c14_bare", [], 20), ("c14_new", [], 20)]
        + [("c14_weight", [w, 0], 20, []) for w in (0, 1, 2)] + [("c14_weight", [w, n], 60, [1, 2]) for w in (0, 1, 2) for n in (1, 2, 3)] + [("c14_layout", [w, s], 20) for w in (0, 1, 2) for s in range(4)] + [("c14_any", [w, n], 40, [1]) for w in (0, 1, 2) for n in (1, 3, 5)],
        thorough=[("c14_enc", [w, 4, 0], 900) for w in (0, 1)] + [("c14_accept", [4, 0], 900), ("c14_enc", [0, 2, 1], 900)] + [("c14_weight", [w, n], 400, [1, 2]) for w in (0, 1, 2) for n in (4, 5)] + [("c14_any", [w, n], 400, [1]) for w in (0, 1, 2) for n in (6, 7)],
    ),
    "C15": dict(
        bounds={"quick": "up to 4 proposals sorted; up to 3 proposals against up to 3 available encodings or media types, 4 or 5 against 1 or 2, with and without wildcard; weights none, 0, 0.1, 0.5 and 1",
                "thorough": "up to 4 proposals against up to 3 available ones"},
        outside="more proposals; other weights (the order of weights only matters)",
        quick=[("c15_sort", [w, k, e], 40) for w in (0, 1, 2) for k, e in ((2, 4), (3, 3), (4, 3))] + [("c15_enc", [w, k, e, m], 40, [1, 2] if m else [2]) for w in (0, 1) for k, e, m in ((0, 3, 2), (1, 3, 2), (2, 4, 2), (3, 3, 2), (2, 3, 3), (2, 3, 0), (3, 3, 1), (4, 3, 1), (4, 2, 2), (5, 2, 1))]
        + [("c15_mime", [k, e, m], 60, [1, 2]) for k, e, m in ((0, 3, 2), (1, 3, 2), (2, 4, 2), (3, 3, 2), (3, 3, 1), (4, 2, 1))],
        thorough=[("c15_sort", [w, 5, 3], 600) for w in (0, 1, 2)] + [("c15_enc", [w, k, e, m], 600, [1, 2]) for w in (0, 1) for k, e, m in ((4, 3, 2), (3, 4, 3), (4, 4, 2))] + [("c15_mime", [k, e, m], 900, [1, 2]) for k, e, m in ((3, 4, 3), (4, 3, 2), (3, 5, 2))],
    ),
    "C16": dict(
        bounds={"quick": "lengths and delays 0-999 and boundary values up to 2^64-1; every ASCII value of up to 4 characters, or 2 after 18 digits; media types of up to 4 ASCII characters, alone or after four beginnings; encodings and expectations of up to 3 ASCII characters after known beginnings; up to 3 methods out of 12; method lists of three in four layouts; locations of up to 3 printable characters after seven beginnings",
                "thorough": "numbers to 99999; values of up to 7 characters; locations of up to 4 characters"},
        outside="several Content-Encoding or Transfer-Encoding lines; letter case of encodings and expectations; other base URLs; internationalised hosts; what the url crate makes of a reference",
        quick=[(e, [0, 999], 40) for e in ("c16_len", "c16_retry")] + [("c16_len_big", [], 20), ("c16_retry_big", [], 20), ("c16_retry_at", [100], 40)] + [(e, [n, l], 40, [1, 2] if n + l else [2]) for e in ("c16_len_any", "c16_retry_any") for n, l in ((0, 0), (1, 0), (3, 0), (4, 0), (2, 18))]
        + [("c16_type", [f, n], 40, []) for f in range(5) for n in (0, 2, 4)] + [("c16_enc", [w], 20) for w in (0, 1)] + [("c16_base", [n], 20) for n in (0, 2)] + [("c16_enc_any", [w, n, h], 30, []) for w in (0, 1) for n, h in ((0, 0), (3, 0), (3, 1), (2, 2), (3, 3), (2, 4), (2, 5), (2, 6), (2, 7))]
        + [("c16_expect", [n, h], 20, []) for n, h in ((0, 0), (3, 0), (1, 11), (2, 11), (0, 12), (2, 12))] + [("c16_allow", [k, e], 30) for k, e in ((0, 1), (1, 12), (2, 6), (3, 4))] + [("c16_allow_layout", [s], 30) for s in range(4)]
        + [("c16_allow_any", [n, h], 30, []) for n, h in ((1, 0), (3, 0), (2, 1), (3, 2), (2, 3), (2, 4))] + [("c16_url", [w, n, h], 40, []) for w in (0, 1, 2) for n, h in ((0, 0), (2, 0), (3, 0), (3, 1), (3, 2), (2, 3), (2, 4), (3, 5), (2, 6))],
        thorough=[(e, [0, 99999], 300) for e in ("c16_len", "c16_retry")] + [(e, [n, l], 300, [1, 2]) for e in ("c16_len_any", "c16_retry_any") for n, l in ((6, 0), (7, 0), (4, 16))] + [("c16_type", [f, n], 400, []) for f in range(5) for n in (5, 6)]
        + [("c16_enc_any", [w, 5, h], 100, []) for w in (0, 1) for h in range(8)] + [("c16_allow", [k, e], 300) for k, e in ((2, 12), (4, 6))] + [("c16_allow_any", [n, h], 300, []) for n in (4, 5) for h in range(5)] + [("c16_url", [w, n, h], 300, []) for w in (0, 1, 2) for n in (3, 4) for h in range(7)],
    ),
    "C17": dict(
        bounds={"quick": "ages 0-999 and boundary values; up to 4 HSTS directives out of five in three spellings and four layouts; up to 4 ASCII characters in five places of the HSTS value; up to 3 origins of four with wildcard; origin lists of three in three layouts; up to 3 ASCII characters as or inside an origin",
                "thorough": "ages 0-99999; up to 5 directives; up to 6 characters"},
        outside="quoted ages and blanks around '=' (RFC 6797 allows both; either answer is accepted); repeated max-age directives; internationalised hosts",
        quick=[("c17_hsts", [0, 999], 40), ("c17_hsts_big", [], 20)] + [("c17_hsts_read", [k, s], 40, [1, 2]) for k, s in ((1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (3, 3))] + [("c17_hsts_any", [n, f], 40, []) for n in (0, 2, 4) for f in range(5)]
        + [("c17_origin", [k], 20) for k in (0, 1, 2, 3)] + [("c17_origin_layout", [s], 20) for s in range(3)] + [("c17_origin_any", [n, h], 40, []) for n, h in ((0, 0), (1, 0), (2, 0), (3, 0), (2, 1), (3, 2), (2, 3))],
        thorough=[("c17_hsts", [0, 99999], 300)] + [("c17_hsts_read", [k, s], 300, [1, 2]) for k in (4, 5) for s in range(4)] + [("c17_hsts_any", [n, f], 300, []) for n in (5, 6) for f in range(5)] + [("c17_origin", [4], 60)] + [("c17_origin_any", [n, h], 300, []) for n, h in ((4, 0), (3, 1), (5, 2), (3, 3))],
    ),
    "C18": dict(
        bounds={"quick": "every version and flags; any 8 consecutive digits of trace and parent id; up to 7 ASCII characters as the whole traceparent and 3 in six places of one; up to 3 metrics out of three names, ten durations and descriptions of up to 2 printable characters (4 for one metric); whole milliseconds 0-99 and 1000-1100; three-metric lists in three layouts of eight forms; descriptions and values of up to 5 ASCII characters in several places; durations of 2 printable characters after seven beginnings",
                "thorough": "traceparent of up to 9 characters; values of up to 7 characters; durations of 3 characters"},
        outside="metric names that are not tokens; rounding below 100 ns of written durations; a leading '+' in traceparent fields",
        quick=[("c18_new", [], 20)] + [("c18_trace", [a, 8], 40) for a in (0, 8, 16, 24)] + [("c18_child", [n], 40) for n in (2, 6)] + [("c18_trace_any", [n, 0], 40, [2] if n < 7 else [1, 2]) for n in (0, 3, 5, 7)] + [("c18_trace_any", [n, f], 40, []) for n in (0, 1, 3) for f in range(1, 7)]
        + [("c18_timing", [k, n, d], 40) for k, n, d in ((1, 2, 10), (1, 4, 2), (2, 1, 5), (2, 2, 2), (3, 1, 2))] + [("c18_dur", [a, 100], 40) for a in (0, 1000)] + [("c18_layout", [s], 20) for s in range(3)] + [("c18_desc_any", [n, f], 30, [1, 2]) for n in (3, 5) for f in range(3)]
        + [("c18_dur_any", [2 - (h == 3), h], 60, []) for h in range(7)] + [("c18_timing_any", [n, h], 40, []) for n in (0, 3, 5) for h in range(4)] + [("c18_metric", [n], 20) for n in (0, 1, 3)],
        thorough=[("c18_trace", [a, 12], 300) for a in (0, 4, 20)] + [("c18_child", [15], 300)] + [("c18_trace_any", [n, 0], 900, [1, 2]) for n in (8, 9)] + [("c18_trace_any", [5, f], 200, []) for f in range(1, 7)] + [("c18_timing", [k, n, d], 400) for k, n, d in ((1, 7, 2), (2, 3, 5), (3, 2, 2))]
        + [("c18_dur", [a, 2000], 300) for a in (0, 100000, 86400000)] + [("c18_desc_any", [7, f], 300, [1, 2]) for f in range(3)] + [("c18_timing_any", [n, h], 400, []) for n in (6, 7) for h in range(4)] + [("c18_dur_any", [3, h], 300, []) for h in range(7)],
    ),
    "C19": dict(
        bounds={"quick": "up to 3 for values and by, host and proto, of up to 4 characters (tab and printable ASCII) in total or 4 in one; every text of up to 6 such characters after 14 beginnings; UTF-8 text of up to 5 bytes after them (no panic); up to 2 historical for values out of 6 and three other historical headers of up to 3 characters; requests with every combination of the headers and tokens or quoted values of 1 character in 10 forms",
                "thorough": "values of up to 6 characters; text of up to 8 characters after the beginnings"},
        outside="values with control or non-ASCII characters when written; several comma-separated elements with other parameters than for (refused by the crate); a second for parameter, a trailing semicolon and the empty value (either answer is accepted); backslash escapes in the quoted values Request::remote and host give; several Forwarded lines there",
        quick=[("c19_new", [k, m, n], 50) for k, m, n in ((0, 0, 0), (1, 0, 4), (2, 0, 2), (3, 2, 0), (3, 0, 1), (0, 1, 3), (0, 2, 3), (0, 4, 3), (1, 7, 1), (0, 7, 1), (1, 3, 1), (1, 6, 1), (2, 5, 1), (0, 7, 0))]
        + [("c19_any", [n, h], 40, [2] if (n, h) in ((2, 4), (4, 4), (0, 3), (0, 5), (0, 6), (0, 7), (0, 9), (0, 12), (0, 11), (0, 4)) else []) for h in range(14) for n in (0, 2, 4, 6)] + [("c19_utf8", [n, h], 30) for h in range(14) for n in (1, 3, 5)] + [("c19_ctl", [3, h], 30) for h in range(14)]
        + [("c19_x", [k, m, n], 40, [1] if k + m else [2]) for k, m, n in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 3), (0, 2, 3), (0, 4, 3), (1, 7, 1), (1, 2, 2), (0, 7, 0))]
        + [("c19_dup", [1, 2], 20), ("c19_dup", [2, 1], 20, [1, 2]), ("c19_dup", [3, 1], 20, [1, 2]), ("c19_dup", [4, 2], 30, [1, 2])]
        + [("c19_req", [1, f], 60, [1] if f else [1, 2]) for f in range(5)] + [("c19_req", [0, 5], 20, [1, 2])] + [("c19_req", [1, f], 60, [1, 3]) for f in (6, 7, 8)] + [("c19_req", [1, 9], 60)],
        thorough=[("c19_new", [k, m, n], 600) for k, m, n in ((1, 0, 6), (2, 0, 3), (2, 3, 2), (0, 7, 2), (3, 7, 1), (0, 1, 6))] + [("c19_any", [n, h], 600, []) for h in range(14) for n in (7, 8)] + [("c19_utf8", [7, h], 200) for h in range(14)] + [("c19_x", [k, m, n], 400) for k, m, n in ((3, 0, 0), (2, 7, 1), (0, 7, 2))] + [("c19_req", [2, f], 600) for f in range(1, 5)] + [("c19_req", [2, f], 600, [1, 3]) for f in (6, 7)],
    ),
    "C21": dict(
        bounds={"quick": "sources of up to 3 bytes (and 5 in one piece schedule) handed out in every split, up to 4 read or fill/consume operations with every buffer size and amount, up to 1 not-ready and 1 error anywhere, any declared length up to n + 1, read as Body, Request and Response; into_string with lengths up to u64::MAX; content of up to 3 bytes for the constructors, 2 for JSON and 1 for form names and values; JSON and form text of up to 2 arbitrary bytes after 8 beginnings",
                "thorough": "sources of up to 4 bytes, up to 2 not-ready; JSON strings of 4 bytes, form names and values of 2 bytes"},
        outside="sources that consume more than they gave or break the AsyncBufRead contract; bodies from files (C20); JSON types other than String, list of bool and u8",
        quick=[("c21_read", a, b, c) for a, b, c in (
            ([0, 2, 0, 0, 0], 20, [1]), ([1, 2, 1, 1, 0], 30, [1, 2]), ([2, 2, 0, 0, 0], 30, [1]), ([2, 3, 1, 1, 0], 60, [1, 2]), ([3, 3, 0, 0, 0], 60, [1]), ([2, 2, 1, 1, 1], 60, [1, 2]), ([2, 2, 1, 1, 2], 60, [1, 2]), ([3, 2, 0, 0, 1], 60, [1]), ([3, 2, 0, 0, 2], 60, [1]), ([5, 2, 0, 0, 0], 60, [1]), ([3, 3, 1, 1, 0], 80, [1, 2]), ([2, 4, 1, 1, 0], 80, [1, 2]))]
        + [("c21_string", [n], 40, [1, 2] if n else [1]) for n in range(5)] + [("c21_make", [n, h], 30) for n in (0, 1, 3) for h in range(10)] + [("c21_reader", [n], 30) for n in (0, 3)]
        + [("c21_json", [n], 100) for n in range(3)] + [("c21_form", [n, m], 200) for n, m in ((0, 0), (1, 0), (0, 1), (1, 1))]
        + [("c21_json_any", [n, h, t], 60, []) for n in (0, 1, 2) for h in range(8) for t in range(4)],
        thorough=[("c21_read", a, 600, [1, 2]) for a in ([4, 3, 1, 1, 0], [3, 4, 1, 1, 0], [3, 3, 2, 1, 0], [3, 3, 1, 1, 1], [3, 3, 1, 1, 2])] + [("c21_string", [6], 600, [1, 2]), ("c21_json", [3], 300), ("c21_json", [4], 600), ("c21_form", [2, 1], 600), ("c21_form", [2, 2], 800), ("c21_form", [1, 2], 400)]
        + [("c21_json_any", [3, h, t], 300, []) for h in range(1, 8) for t in range(4)],
    ),
    "C22": dict(
        bounds={"quick": "bodies of up to 2 bytes each with no, any small or an enormous declared length, every combination of 4 types, every split of both sources, up to 1 read operation on each before chaining and 2 after, 1 wait and 1 error; lengths over all of u64; three bodies of up to 2 bytes nested either way with up to 3 operations",
                "thorough": "up to 3 operations after chaining, bodies of up to 3 bytes"},
        outside="more than three bodies; errors in the second source",
        quick=[("c22_chain", a, 80, c) for a, c in (([0, 0, 0, 1, 0], [1]), ([0, 1, 0, 2, 0], [1]), ([1, 0, 1, 1, 0], [1]), ([1, 1, 0, 1, 1], [1, 2]), ([1, 1, 0, 2, 1], [1, 2]), ([2, 1, 0, 2, 0], [1]), ([1, 2, 0, 2, 0], [1]), ([2, 2, 0, 1, 0], [1]), ([2, 1, 1, 1, 0], [1]))]
        + [("c22_len", [1], 30, [1, 2])] + [("c22_three", a, 40) for a in ([0, 0, 0, 2], [1, 1, 1, 2], [0, 1, 1, 3], [2, 1, 1, 1], [1, 0, 1, 3], [1, 1, 0, 3])],
        thorough=[("c22_chain", a, 800, c) for a, c in (([2, 2, 0, 3, 0], [1]), ([2, 2, 1, 1, 0], [1]), ([1, 1, 1, 2, 1], [1, 2]), ([2, 2, 0, 2, 1], [1, 2]), ([3, 3, 0, 2, 0], [1]))] + [("c22_three", a, 400) for a in ([2, 2, 2, 2], [1, 1, 1, 4])],
    ),
    "C23": dict(
        bounds={"quick": "every history of up to 3 operations (set, replace, swap, take and read in four ways, set, insert and remove the content type, clone) over 5 kinds of body with a symbolic byte; conversions of text of up to 3 characters; JSON and form text of 1 character",
                "thorough": "histories of 4 operations; text of 2 bytes"},
        outside="the Content-Type that taking the body of a message without one leaves behind (octet-stream or none); several Content-Type values at once",
        quick=[("c23_history", [k, t], 80) for k in (1, 2, 3) for t in (0, 1)] + [("c23_from", [n], 30) for n in range(4)] + [("c23_json", [n, t], 60) for n in (0, 1) for t in (0, 1)],
        thorough=[("c23_history", [4, t], 800) for t in (0, 1)] + [("c23_json", [2, t], 600) for t in (0, 1)],
    ),
    "C24": dict(
        bounds={"quick": "every order of up to 10 operations of both ends (ask for an end, send, poll, cancel, drop each end or the message) for the trailers of requests and responses and for upgrades; trailer values of up to 3 characters; a peer that answers, waits or fails",
                "thorough": "up to 12 operations, values of up to 12 characters"},
        outside="operations of the two ends running at the same instant on two threads (async-channel's own guarantee); responses that were cloned and share the channel; asking for an end twice (panics, as documented)",
        quick=[("c24_trailers", [k, t, n], 60, c) for k, t, n, c in ((3, 0, 0, []), (4, 0, 1, [2]), (6, 0, 1, [1, 2]), (6, 1, 1, [1, 2]), (8, 0, 3, [1, 2]), (8, 1, 0, [1, 2]), (10, 0, 1, [1, 2]), (10, 1, 1, [1, 2]))]
        + [("c24_upgrade", [k, r], 60, [1, 2]) for k in (6, 10) for r in range(3)],
        thorough=[("c24_trailers", [12, t, 2], 600, [1, 2]) for t in (0, 1)] + [("c24_trailers", [8, t, 12], 600, [1, 2]) for t in (0, 1)] + [("c24_upgrade", [12, 0], 600, [1, 2])],
    ),
    "C25": dict(
        bounds={"quick": "every u16 as status and every pair of them; every u64, i64, u32, i32, u16 and i16 through serde; JSON numbers of 3 and 5 digits; all 39 methods in every mix of cases and every ASCII text of up to 17 characters against the list; every pair of versions and texts of up to 8 characters from '-' to 'Z', or 4 ASCII characters after HTTP/",
                "thorough": "status and method as in quick, method text of up to 20 characters, non-ASCII text of up to 5 bytes"},
        outside="the wording of error messages; the hyphenation of reason phrases",
        quick=[("c25_status", [], 60, [1, 2])] + [("c25_names", [p], 30) for p in range(4)] + [("c25_serde", [w], 100, [1, 2]) for w in (0, 1, 2, 4, 5, 3)] + [("c25_json", [5, 0], 60, [2]), ("c25_json", [3, 0], 100, [1, 2]), ("c25_json", [3, 1], 60, [2]), ("c25_json", [1, 0], 30, [2])]
        + [("c25_method", [i], 30) for i in range(39)] + [("c25_method_any", [n, h], 30, [2] if n in (0, 1, 2, 19) or (h and n in (15, 16) or n in (11, 12, 14, 16)) or (h == 2 and n in (15, 18)) else [1, 2]) for n in range(18) for h in range(3) if n not in (11, 12, 13, 14, 15, 16)] + [("c25_method_any", [n, h], 30, []) for n in range(11, 17) for h in range(3)]
        + [("c25_method_utf8", [n], 30) for n in (2, 3)] + [("c25_version", [n, h], 60, []) for h in (0, 1) for n in range(4)] + [("c25_version", [6, 0], 60, [1, 2]), ("c25_version", [8, 0], 60, [1, 2]), ("c25_version", [7, 0], 60, [2]), ("c25_version", [4, 1], 60, [2]), ("c25_version", [1, 1], 60, [1, 2]), ("c25_version", [3, 1], 60, [1, 2]), ("c25_versions", [], 30)],
        thorough=[("c25_method_any", [n, h], 200, []) for n in (18, 19, 20) for h in range(3)] + [("c25_method_utf8", [n], 300) for n in (4, 5)],
    ),
    "C26": dict(
        bounds={"quick": "messages of up to 3 printable characters with every status number up to 999, valid or not, set once or twice; io errors of 3 kinds; every use of the Status trait; the macros with every pair of bytes",
                "thorough": "messages of up to 12 characters"},
        outside="backtraces; Debug output beyond containing the message",
        quick=[("c26_text", [n], 60) for n in range(4)] + [("c26_error", [], 60)] + [("c26_display", [n], 60) for n in range(4)] + [("c26_status", [h, l], 60, [1, 2]) for h in range(3) for l in (0, 1)] + [("c26_macros", [h], 60, [2] if h < 2 else [1, 2]) for h in range(6)],
        thorough=[("c26_text", [12], 300), ("c26_display", [5], 300)],
    ),
    "C27": dict(
        bounds={"quick": "every history of up to 4 operations out of 15 on 5 types (one without data) with symbolic values, directly and through requests and responses; drops of values of three types in histories of up to 6 operations", "thorough": "histories of 5 operations"},
        outside="",
        quick=[("c27_history", [k, v], 60) for k in (1, 2, 3) for v in range(3)] + [("c27_history", [4, 0], 100)] + [("c27_drop", [k], 60) for k in (3, 6)],
        thorough=[("c27_history", [5, 0], 800), ("c27_history", [4, 1], 300), ("c27_history", [4, 2], 300), ("c27_drop", [7], 300)],
    ),
    "C28": dict(
        bounds={"quick": "the defaults over up to 2 earlier values of any of 7 headers; policies of up to 3 calls over all 17 directives with sources of up to 3 characters, and up to 5 calls over 2 directives, applied in between and twice at the end; report groups of 1 character",
                "thorough": "up to 4 calls over all directives, up to 6 over 2"},
        outside="sources with spaces, commas, semicolons, control or non-ASCII characters; the default policy with more sources for its own directives",
        quick=[("c28_default", [n], 30) for n in (0, 2)] + [("c28_single", [n], 30) for n in (0, 1, 3)] + [("c28_referrer", [k], 30) for k in (0, 1, 2, 3)] + [("c28_sources", [], 30)]
        + [("c28_csp", [k, n, a, b], 80, [1] if k == 0 else [1, 2]) for k, n, a, b in ((0, 1, 1, 0), (1, 3, 17, 0), (2, 2, 17, 0), (3, 1, 17, 0), (4, 1, 2, 1), (4, 1, 2, 14), (5, 1, 2, 5))] + [("c28_report_to", [n], 60) for n in (0, 1)],
        thorough=[("c28_csp", a, 800, [1, 2]) for a in ([4, 1, 17, 0], [3, 3, 17, 0], [6, 1, 2, 3])] + [("c28_referrer", [4], 300)],
    ),
    "C29": dict(
        bounds={"quick": "header names and values of up to 3 bytes; maps of up to 3 values of up to 2 characters under 3 names; every status and method name of up to 4 letters; requests with URLs of up to 2 printable characters at 4 places, up to 2 headers, 6 versions and a body; responses with up to 2 headers; bodies of 7 makings",
                "thorough": "names and values of 5 bytes, maps of 4 values, URLs of 3 characters"},
        outside="header names that are no tokens and values with control characters, URLs without a host, and methods and statuses outside the crate's lists in conversions that cannot return an error; extensions, which are not converted; http.Method's case",
        quick=[("c29_name", [n], 60, [2] if n == 0 else [1, 2]) for n in range(4)] + [("c29_value", [n], 60, [1] if n == 0 else [1, 2, 3]) for n in range(4)] + [("c29_map", [k, n], 60) for k, n in ((0, 0), (1, 2), (2, 2), (3, 1))] + [("c29_map_bad", [n], 60, [1, 2]) for n in (1, 2)]
        + [("c29_status", [], 60, [1, 2]), ("c29_method", [0], 60)] + [("c29_method", [n], 60, [2] if n < 3 else [1, 2]) for n in (1, 2, 3, 4)] + [("c29_request", [n, at, 0], 60) for n in (0, 1, 2) for at in range(4)] + [("c29_request", [1, at, 1], 60) for at in (0, 1)] + [("c29_request", [0, 0, 2], 60)]
        + [("c29_response", [k], 60, [1, 2] if k else [1]) for k in range(3)] + [("c29_uri", [n], 30, [1, 2]) for n in (0, 2)] + [("c29_body", [d], 30) for d in range(4)],
        thorough=[("c29_name", [5], 300, [1, 2]), ("c29_value", [5], 300, [1, 2, 3]), ("c29_map", [4, 1], 300), ("c29_map", [3, 2], 300), ("c29_response", [3], 300, [1, 2])] + [("c29_request", [3, at, 0], 600) for at in range(4)] + [("c29_request", [1, 0, 2], 600)],
    ),
    "C30": dict(
        bounds={"quick": "records of text of up to 2 arbitrary UTF-8 bytes, optional text, booleans, numbers up to 999, characters, lists of up to 3, a nested record and maps, set on 5 URLs; every query of up to 3 printable characters after 8 beginnings read as 5 types",
                "thorough": "text of up to 3 bytes, queries of up to 4 characters"},
        outside="empty lists and optional empty text (not distinguished from absence by the format); other serde types",
        quick=[("c30_struct", [n, m, at], 60) for n, m, at in ((0, 9, 0), (1, 9, 1), (1, 1, 2), (2, 9, 3), (1, 9, 4))] + [("c30_number", a, 60) for a in ([0, 9], [1, 99], [0, 255], [2, 999])] + [("c30_list", [k, n], 60) for k, n in ((1, 0), (3, 0), (2, 1), (1, 2))] + [("c30_inner", [n], 60) for n in (0, 1)]
        + [("c30_map", [n, m], 60) for n, m in ((1, 0), (1, 1), (2, 1), (2, 2))] + [("c30_any", [n, h, t], 40, []) for n in (1, 3) for h in range(8) for t in range(5)] + [("c30_any", a, 40, [1, 2]) for a in ([3, 3, 4], [3, 7, 0], [3, 6, 2], [3, 4, 1])]
        + [("c30_digits", [n, at], 60, [1, 2] if n else [1]) for n in range(4) for at in (0, 1)] + [("c30_none", [at], 20) for at in range(5)] + [("c30_empty", [at], 60) for at in range(5)],
        thorough=[("c30_struct", [3, 9, 0], 800), ("c30_struct", [1, 2, 0], 800), ("c30_inner", [2], 300), ("c30_list", [2, 2], 800), ("c30_list", [3, 1], 800), ("c30_map", [2, 3], 800), ("c30_number", [0, 99], 400)] + [("c30_any", [4, h, t], 400, []) for h in range(8) for t in range(5)] + [("c30_digits", [4, at], 300, [1, 2]) for at in (0, 1)],
    ),
    "C31": dict(
        bounds={"quick": "each of 32 typed headers applied in 5 ways to a request or response over up to 2 earlier lines of 1 printable character in 2 spellings; reading with an arbitrary ASCII line of up to 3 characters before or after a valid one; lists of two items on one and on two lines in both orders; 11 list headers of up to 3 items out of 3 through every iterator",
                "thorough": "arbitrary lines of up to 5 characters"},
        outside="how many lines Content-Encoding, Transfer-Encoding, Allow and Forwarded read",
        quick=[("c31_apply", [k], 60) for k in range(32)] + [("c31_lines", [k, n], 60) for k in range(18) for n in (1, 3)] + [("c31_lines", [16, 12], 60)] + [("c31_lines", [k, 0], 20) for k in range(20, 31) if k != 28] + [("c31_trace", [], 30)] + [("c31_items", [t, n], 60) for t in range(11) for n in (0, 2, 3)],
        thorough=[("c31_lines", [k, 5], 600) for k in range(18) if k not in (12, 13, 14)] + [("c31_lines", [k, 4], 600) for k in (12, 13, 14)],
    ),
    "C32": dict(
        bounds={"quick": "histories of up to 3 setters or clones on a message of either kind, over 6 methods, 6 versions, 4 statuses, 3 URLs and texts of 1 printable character; the nine constructors on a path of up to 2 characters; URLs of up to 3 printable characters; every 16-bit status",
                "thorough": "4 steps on a response; URLs of 5 characters"},
        outside="from_res and take-based moves of bodies (C23), trailers and upgrades (C25), arbitrary headers (C01-C03)",
        quick=[("c32_request", [k], 60) for k in (1, 2, 3)] + [("c32_response", [k], 60) for k in (1, 2, 3)] + [("c32_methods", [n], 30) for n in (0, 1, 2)] + [("c32_bad", [1], 30, {2}), ("c32_bad", [3], 30, {1, 2}), ("c32_status", [], 30, {1, 2}), ("c32_into", [0], 30), ("c32_into", [2], 30)],
        thorough=[("c32_response", [4], 600), ("c32_bad", [5], 600, {1, 2}), ("c32_methods", [3], 300)],
    ),
    "C33": dict(
        bounds={"quick": "up to 3 setters on the authentication headers (10 schemes, texts of up to 2 ASCII characters), users and passwords of 2 arbitrary UTF-8 bytes, up to 4 setters on HSTS with any duration, locations of up to 2 printable characters after 4 beginnings, all encodings and pairs of them, 4 types, 4 weights, parameter values of up to 3 letters, any two instants up to the year 9999",
                "thorough": "4 setters, texts of 3 characters, locations of 3"},
        outside="longer texts; weights (C14); list headers (C12, C13, C31)",
        quick=[("c33_auth", a, 60) for a in ([1, 2], [2, 1], [3, 1])] + [("c33_basic", a, 30) for a in ([0, 2], [2, 2])] + [("c33_loc", [n], 40, [1, 2]) for n in (0, 1, 2)] + [("c33_hsts", [k], 30) for k in (0, 2, 4)] + [(e, [w], 30) for e in ("c33_enc", "c33_proposal") for w in (0, 1)]
        + [("c33_media", [], 30), ("c33_date", [], 30)] + [("c33_param", a, 30) for a in ([2, 2], [3, 3], [1, 2])],
        thorough=[("c33_auth", [3, 3], 600), ("c33_auth", [4, 1], 600), ("c33_basic", [3, 3], 300), ("c33_loc", [3], 600, [1, 2]), ("c33_hsts", [6], 300)],
    ),
    "C34": dict(
        bounds={"quick": "every time of the clock, delay and instant up to the year 9999, to the nanosecond; delays read from up to 3 digits; every number of seconds up to 2^64-1 (no panic)",
                "thorough": "delays read from 5 digits"},
        outside="which instant a delay beyond the clock's range gives; Expires::new with such a delay; clocks before 1970",
        quick=[("c34_now", [], 30), ("c34_after", [], 60, [1, 2]), ("c34_at", [], 30, [1, 2]), ("c34_far", [], 30)] + [("c34_read", [k], 60, [1, 2]) for k in (1, 2, 3)],
        thorough=[("c34_read", [k], 400, [1, 2]) for k in (4, 5)],
    ),
    "C20": dict(
        bounds={"quick": "files of up to 5 arbitrary bytes, of 40, 301 and 9000 bytes with four arbitrary bytes at the ends, of 257 to 310 with two arbitrary bytes in the archive mark, and 8 known beginnings cut anywhere (with and without zeros behind); 12 names, extensions of up to 5 characters; each file operation ready at once or not; files moved in before",
                "thorough": "files of up to 9 arbitrary bytes, extensions of up to 6"},
        outside="the operating system and async-std's thread pool (replaced by files in memory in the symbolic run); reads that deliver fewer bytes than the file has; files changed meanwhile; the type of a file that was not at its start",
        quick=[("c20_path", [0, n, k], 60, [1, 12] if n < 2 else [1, 11, 12]) for n, k in ((0, 0), (1, 1), (2, 7), (3, 9), (4, 10), (5, 11))] + [("c20_path", [0, 2, k], 40, [1, 11, 13]) for k in (2, 3, 4, 5, 6, 8)]
        + [("c20_path", [1, n, k], 60, [1, 11]) for n, k in ((40, 0), (301, 2), (9000, 1))] + [("c20_path", [2, n, 3], 30, [1, 13] if n < 262 else [1, 11, 13]) for n in (257, 261, 262, 300, 310)]
        + [("c20_path", [3, n, k], 40, [1, 11]) for n, k in ((0, 0), (9, 4))] + [("c20_open", [0, n, k], 40) for n, k in ((0, 0), (2, 7), (3, 4), (4, 5))] + [("c20_open", [3, 9, 10], 40, [1, 2, 11, 12, 13]), ("c20_open", [2, 262, 0], 40, [1, 2, 11, 12, 13])]
        + [("c20_ext", [k], 30) for k in (1, 2, 3, 4, 5)] + [("c20_used", [n], 40, [1, 2]) for n in (0, 2, 4)] + [("c20_missing", [], 30), ("c20_two", [1, 2], 30), ("c20_two", [2, 2], 30), ("c20_chain", [1, 2], 30), ("c20_chain", [3, 3], 30)],
        thorough=[("c20_path", [0, n, k], 600, [1, 11]) for n, k in ((6, 0), (7, 4), (8, 1), (9, 2))] + [("c20_open", [0, 6, 0], 300), ("c20_ext", [6], 200), ("c20_used", [6], 300, [1, 2])],
    ),
    "C35": dict(
        bounds={"quick": "names and values of up to 2 arbitrary ASCII characters; up to 3 values of 1 or 2 printable characters under one name, two names; ten list headers of up to 3 entries out of three kinds; all encodings; bodies of up to 3 arbitrary bytes read to any point; error texts of 3 printable characters; one value of each of 26 other types",
                "thorough": "names and values of 3 characters; lists of 4 entries"},
        outside="the exact text printed for types other than names, values, header maps, list headers and encodings; other format options than {:?} and {:#?}",
        quick=[("c35_text", [n], 40) for n in (0, 1, 2)] + [("c35_values", a, 40) for a in ([1, 1], [1, 2], [2, 1], [3, 1])] + [("c35_map", [n], 40) for n in (0, 1, 2)] + [("c35_list", [k, n], 30) for k in range(10) for n in (0, 2, 3)]
        + [("c35_encoding", [], 20), ("c35_body", [0], 30), ("c35_body", [3], 30), ("c35_error", [], 40), ("c35_others", [], 40)],
        thorough=[("c35_text", [3], 600), ("c35_values", [2, 2], 300), ("c35_map", [3], 600)] + [("c35_list", [k, 4], 100) for k in range(10)],
    ),
}

# The same entries on long texts (a size from 100 on: a tenth of it as padding around its last digit's number of
# arbitrary characters) and on many entries (from 8 on: arbitrary ones at both ends, fixed ones between).
# (entry, covers, arguments...)
BIG = {
    "C01": ("texts of 20 to 4000 characters, up to 4 of them arbitrary", [
        ("c01_ctor", [1, 2], [202], [702], [712], [722], [732], [3002], [8112], [40962]), ("c01_eq", [1, 2], [704, 704], [2602, 2602]), ("c01_eq", [2], [302, 312]), ("c01_eq_nonascii", [1], [403]), ("c01_hash", [1], [704])]),
    "C02": ("maps of 9 to 33 names, up to 300 values under a name, histories of two operations over each of the 65 predefined names", [
        ("c02_named", [1], *[[k, 2, f] for k in (0, 1, 2) for f in (0, 20, 40, 60)]), ("c02_many", [1], [0, 1, 12], [1, 2, 9], [2, 1, 33], [0, 1, 800], [1, 1, 3000], [2, 1, 401])]),
    "C03": ("texts of 30 to 4000 characters, up to 40 values under a name", [
        ("c03_ctor", [1, 2], [702], [712], [732], [3002], [8112], [40962]), ("c03_eq", [1, 2], [704, 704], [2602, 2602]), ("c03_list", [1], [1, 10], [2, 40]), ("c03_collect", [1], [40]), ("c03_from", [1], [302, 402])]),
    "C06": ("types with names, parameter names or values of 70 to 300 characters and with up to 24 parameters", [
        ("c06_parse", [1], [10, 2, 0], [10, 3, 6], [11, 3, 0], [11, 2, 6], [12, 3, 5], [12, 2, 6], [13, 3, 0], [13, 2, 6], [2, 702, 0], [3, 702, 0], [3, 3003, 6], [4, 702, 5], [4, 3003, 5]),
        ("c06_parse", [2], [0, 702, 0], [0, 3002, 0]), ("c06_parse", [1, 2], [1, 712, 6], [1, 732, 6]), ("c06_parse", [1], [3, 712, 6], [3, 732, 6]), ("c06_parse", [1, 2], [1, 702, 6], [9, 704, 6]), ("c06_round", [1], [10, 2, 6], [11, 2, 6], [12, 2, 5], [3, 703, 6], [4, 703, 5]), ("c06_utf8", [1], [4, 704, 5], [0, 704, 6])]),
    "C07": ("types with long names, with arbitrary parameter names and with many parameters", [
        ("c07_named", [1], [1, 1, 2], [4, 5, 7], [7, 1, 6], [7, 5, 0], [9, 2, 3], [7, 2, 4]),
        ("c07_subset", [1], [1, 8, 8], [1, 8, 9], [1, 9, 8], [1, 8, 4], [1, 5, 9], [701, 0, 0], [702, 0, 8], [1, 9, 5]), ("c07_trans", [1], [1, 8, 9, 5]), ("c07_eq", [1], [1, 8, 9], [1, 8, 8], [702, 0, 1]),
        ("c07_remove", [1], [8, 1], [9, 3]), ("c07_ext", [], [702]), ("c07_sniff", [1, 2], [3004], [91004])]),
    "C11": ("numbers around 2^53 and of 20 digits, up to 40 directives, names of 70 characters, numbers with leading zeros", [
        ("c11_cc", [1], [16, 9], [40, 99], [1, 12345678901234567000], [2, 9007199254740990]), ("c11_age", [1], [12345678901234567000, 999], [9007199254740990, 20]), ("c11_clear", [1], [12], [40]), ("c11_cc_bad", [2], [702]), ("c11_age_any", [1, 2], [2, 60])]),
    "C12": ("tags and names of 70 to 300 characters, lists of up to 40 entries", [
        ("c12_etag", [1], [702], [3003]), ("c12_etag_any", [1, 2], [704, 1, 1], [703, 2, 1]), ("c12_eq", [1], [704]), ("c12_list", [1], [0, 12, 1], [1, 12, 702], [0, 40, 3], [1, 1, 3003]),
        ("c12_list_any", [1, 2], [0, 704, 1], [1, 703, 3]), ("c12_vary", [1], [12, 2], [40, 702]), ("c12_vary_any", [1], [703])]),
    "C13": ("texts of 30 to 300 characters", [
        ("c13_authz", [1], [702], [8003]), ("c13_authz_any", [2], [702, 1]), ("c13_authz_any", [1], [702, 9]), ("c13_basic", [1], [302, 402], [3, 2602], [2601, 2]), ("c13_basic_bytes", [1, 2], [703]), ("c13_basic_any", [2], [804]),
        ("c13_www", [1], [704], [3004]), ("c13_www_any", [1, 2], [704, 3], [703, 2])]),
    "C14": ("lists of up to 40 entries, texts of 30 to 70 characters", [
        ("c14_enc", [1], [0, 12, 0], [1, 12, 0], [0, 40, 0], [1, 33, 0]), ("c14_accept", [1], [12, 0], [40, 0]), ("c14_any", [1], [2, 703], [0, 703]), ("c14_weight", [2], [2, 303])]),
    "C15": ("lists of up to 40 proposals", [
        ("c15_sort", [1], [0, 24, 4], [1, 40, 6], [2, 24, 5]), ("c15_enc", [1], [0, 12, 5, 2], [1, 24, 6, 1], [0, 24, 4, 9]), ("c15_mime", [1], [12, 5, 2], [24, 5, 1], [2, 4, 9])]),
    "C16": ("numbers around 2^53 and of 20 digits, texts of 70 to 200 characters, numbers with leading zeros, up to 40 methods", [
        ("c16_len_any", [1, 2], [2, 60]), ("c16_len", [1], [12345678901234567000, 999], [9007199254740990, 20]), ("c16_retry", [1], [12345678901234567000, 999], [9007199254740990, 20]), ("c16_retry_any", [1, 2], [2, 60]), ("c16_type", [1, 2], [0, 704]), ("c16_type", [1], [3, 703], [4, 703]), ("c16_enc_any", [2], [0, 703, 1], [1, 703, 6]), ("c16_expect", [2], [704, 0], [703, 12]),
        ("c16_allow", [1], [12, 12], [40, 12]), ("c16_allow_any", [2], [703, 2]), ("c16_url", [1], [0, 702, 0], [1, 702, 4], [0, 2002, 2], [1, 702, 5]), ("c16_url", [1, 2], [2, 702, 1]), ("c16_base", [1], [702])]),
    "C17": ("ages around 2^53 and of 20 digits, up to 24 directives, up to 40 origins, texts of 70 characters", [
        ("c17_hsts", [1], [12345678901234567000, 999], [9007199254740990, 20]), ("c17_hsts_read", [1], [12, 0], [12, 1], [24, 3]), ("c17_hsts_any", [2], [703, 0]), ("c17_hsts_any", [1], [703, 2]), ("c17_hsts_any", [1, 2], [702, 3]), ("c17_origin", [1], [12], [40]), ("c17_origin_any", [1, 2], [702, 3], [702, 1])]),
    "C18": ("up to 33 metrics, texts of 70 to 300 characters", [
        ("c18_timing", [1], [12, 1, 3], [12, 702, 1], [33, 1, 2], [1, 3003, 1]), ("c18_trace_any", [2], [702, 2], [703, 0]), ("c18_desc_any", [1, 2], [703, 0], [703, 1], [3002, 2]), ("c18_timing_any", [1, 2], [703, 0], [703, 3]), ("c18_metric", [1], [703])]),
    "C05": ("texts of 70 characters, 70 blanks", [("c05_any", [2], [702, 0], [302, 2]), ("c05_blank", [1], [0, 40, 30, 0], [1, 40, 0, 3])]),
    "C19": ("addresses with up to 3 arbitrary characters in nine places, up to 40 values and 18 keys, texts of 70 to 300 characters", [
        ("c19_new", [1], [12, 7, 1], [40, 0, 1], [1, 7, 701], [1, 1, 3001], [2, 0, 702]), ("c19_any", [2], [702, 0], [702, 2]), ("c19_any", [1, 2], [2, 14], [2, 15], [2, 16], [702, 5], [3002, 3]),
        ("c19_utf8", [1], [703, 5], [3, 16], [3, 14]), ("c19_ctl", [1], [703, 3]), ("c19_x", [1], [12, 1, 1], [12, 2, 1], [40, 0, 0], [2, 4, 701], [1, 3, 701]), ("c19_dup", [1, 2], [12, 1], [40, 1]),
        ("c19_x_any", [2], [0, 1], [2, 4], [2, 7]), ("c19_x_any", [1, 2], [3, 0], [2, 1], [2, 2], [3, 3], [2, 5], [2, 6], [2, 8]), ("c19_req", [1], [701, 3]), ("c19_req", [1, 3], [701, 6], [701, 8])]),
    "C20": ("four arbitrary bytes at the ends of 9000 and 40000", [("c20_path", [1, 11], [1, 9000, 7], [1, 40000, 0]), ("c20_path", [1, 11, 13], [1, 9000, 4])]),
    "C21": ("contents of 70 to 70 KB with up to 9 arbitrary bytes, read in pieces of any of those sizes", [
        ("c21_make", [1], [3, 9], [0, 9], [702, 9], [30003, 4], [30003, 0], [702, 7], [702, 8]), ("c21_long", [1], [90004, 0, 1, 0], [90002, 5000, 1, 0], [90002, 8192, 1, 1], [400002, 4096, 1, 2], [700002, 0, 0, 0], [90002, 9002, 1, 2], [20003, 100, 1, 1]),
        ("c21_json", [1], [702], [2002]), ("c21_form", [1], [701, 401], [301, 1], [0, 3001]), ("c21_json_any", [1, 2], [702, 1, 0])]),
    "C22": ("chains of bodies of up to 20 KB", [("c22_long", [1], [90002, 0, 0, 0], [1, 90002, 8192, 0], [2, 90002, 5000, 1], [90002, 90002, 0, 0], [200002, 90002, 4096, 0], [90001, 2, 0, 0])]),
    "C23": ("bodies of 9 KB, messages with every predefined header", [
        ("c23_named", [1], [0, 1], [1, 2]), ("c23_history", [1], [1, 2], [1, 3], [2, 3]), ("c23_from", [1], [702], [3003]), ("c23_json", [1], [702, 0], [702, 1], [3001, 0])]),
    "C24": ("no trailers at all, 22 trailers, every predefined name", [
        ("c24_trailers", [1, 2], [6, 1, 9], [6, 0, 9]), ("c24_trailers", [1, 2], [6, 0, 0], [6, 1, 0], [6, 0, 702], [6, 1, 3001])]),
    "C26": ("messages of 30 to 300 characters", [("c26_text", [1], [702], [3001]), ("c26_display", [1], [702], [303])]),
    "C27": ("among 40 other types", [("c27_many", [1, 2], [1], [2])]),
    "C28": ("up to 40 calls, texts of 20 to 300 characters, messages with every predefined header", [
        ("c28_named", [1], *[[h, 1] for h in range(9)]), ("c28_csp", [1, 2], [12, 2, 3, 0], [12, 2, 17, 0], [40, 1, 17, 3], [2, 702, 2, 3], [1, 3003, 17, 0]), ("c28_referrer", [1], [12], [40]), ("c28_report_to", [1], [202]), ("c28_default", [1], [702]), ("c28_single", [1], [702])]),
    "C29": ("up to 40 headers, names, values and paths of 70 to 300 characters, messages with every predefined header", [
        ("c29_named", [1], [0, 1], [0, 2], [1, 1], [1, 2], [2, 1], [2, 2]), ("c29_name", [1, 2], [702], [3003]), ("c29_value", [1, 2, 3], [702], [3002]), ("c29_map", [1], [12, 1], [40, 1], [2, 702]), ("c29_map_bad", [1, 2], [702]), ("c29_request", [1], [702, 0, 0], [702, 2, 1], [0, 1, 12], [0, 1, 40]),
        ("c29_response", [2], [12], [33]), ("c29_uri", [1, 2], [702])]),
    "C30": ("records nested up to five deep, wide and fractional numbers, lists of 24 and maps of 40 entries, texts of 70 bytes", [
        ("c30_struct", [1], [702, 9, 0]), ("c30_list", [1], [12, 1], [24, 1]), ("c30_inner", [1], [702]), ("c30_wide", [1], [1], [2]), ("c30_deep", [1], [1, 0, 1], [1, 1, 1], [1, 2, 1], [1, 3, 1], [1, 4, 1], [1, 1, 0], [1, 2, 0], [1, 3, 0], [1, 4, 0]), ("c30_map", [1], [702, 1], [1, 702]), ("c30_many", [1], [12, 1, 0], [40, 1, 2]), ("c30_any", [2], [702, 0, 0]), ("c30_any", [1, 2], [703, 1, 1])]),
    "C31": ("up to 70 lines and items, messages with every predefined header", [
        ("c31_over", [1], *[[k, 1] for k in range(32)]), ("c31_lines", [1], *[[k, 12] for k in (20, 21, 22, 23, 24, 25, 26, 27, 29, 30)], [24, 40], [22, 70], *[[k, 702] for k in (0, 2, 6, 7, 8, 10, 11, 12, 15, 16, 17)]), ("c31_items", [1], *[[t, 24] for t in range(11)], [1, 70])]),
    "C32": ("texts of 70 and 300 characters, messages with every predefined header", [
        ("c32_named", [1], *[[k, n] for k in (0, 1) for n in (1, 2, 3, 4, 5)]), ("c32_request", [1], [102]), ("c32_response", [1], [102]), ("c32_methods", [1], [702]), ("c32_bad", [1, 2], [703]), ("c32_into", [1], [702])]),
    "C33": ("texts of 30 to 300 characters", [("c33_auth", [1], [2, 702]), ("c33_basic", [1], [302, 702]), ("c33_loc", [1, 2], [702]), ("c33_param", [1], [703, 703], [3003, 3003])]),
    "C35": ("texts of 70 characters, lists of up to 40 entries, bodies of 70 and 3000 bytes", [
        ("c35_text", [1], [702]), ("c35_values", [1], [12, 1], [40, 2], [1, 702], [2, 701]), ("c35_map", [1], [701]), ("c35_list", [1], *[[k, 24] for k in range(10)], [5, 40]), ("c35_body", [1], [703], [30003])]),
}
for p, (words, jobs) in BIG.items():
    PROPS[p]["bounds"]["quick"] += "; also " + words
    PROPS[p]["quick"] = PROPS[p]["quick"] + [(e, a, 60, cov) for e, cov, *args in jobs for a in args]
