import json
L="src/lib.rs"; U="src/util.rs"
def P(id,title,st,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=obs or ["result of each NmeaParser::parse_sentence call"]
    d["anchors"]["hook_needed"]=None
    return d
FR=("pending two-part AIS parts","first or second part waiting for its counterpart, per message identity",L)
VS=("pending class B halves","part A or part B waiting for its counterpart, per MMSI","src/ais/vdm_t24.rs")
GS=("pending satellite sentences","GSV sentences of groups not complete yet","src/gnss/gsv.rs")
ALL=[L,U,"src/ais/mod.rs","src/gnss/mod.rs"]
ps=[
P("C01","No sentence, history or clock makes the parser panic",
 "Parsing any text, after any history of lost, damaged, duplicated or reordered sentences and at any wall-clock instant from 1970 on, returns a parsed sentence or a parse error. It never panics, aborts or overflows, also when fields are empty, short, out of range, non-ASCII or carry the protocols' 'not available' values.",
 ["inputs","histories","fault_sequences"],"every text (any field empty, short, huge, non-numeric, non-ASCII; any AIS payload bits), every parser history, every wall-clock instant from 1970 to 9999 including leap days, month ends and year ends",
 "Tests feed about 25 well-formed sentences; receivers without a fix, base stations without a clock, calendar-dependent ETAs and line noise are never sampled.",
 [L,U,"src/ais/vdm_t4.rs","src/ais/vdm_t5.rs","src/gnss/gga.rs","src/gnss/gsv.rs"],
 [("slicing of the sentence type",L),("parse_hhmmss / parse_yymmdd_hhmmss / pick_eta calendar arithmetic",U),("parse_payload character arithmetic",U),("GSV group counting","src/gnss/gsv.rs")],[FR,VS,GS]),
P("C02","Damage the checksum reveals never yields data",
 "If a sentence carries a non-empty checksum that is not the two-digit upper-case hexadecimal XOR of the bytes between its first character and its last '*', parsing returns the corrupted-sentence error and nothing else, whatever the parser's state and the rest of the sentence. A sentence with the right checksum is never reported as corrupted and, when it has no other '*', gives exactly the result of the same sentence sent without '*' and checksum.",
 ["inputs","fault_sequences","histories"],"every sentence kind, every damage in transit (substituted, inserted, deleted, swapped, non-ASCII characters, damaged checksum digits), every parser state when it arrives",
 "One test with one wrong checksum digit on one type-3 sentence; no damaged fragment, no non-ASCII damage, no checksum below 0x10 in most types.",
 [L],[("checksum computation and comparison",L)],[FR]),
P("C03","A rejected sentence leaves no trace",
 "A sentence that is rejected because of its checksum, its sentence type or a malformed header or field leaves the parser exactly as if it had never been received: every later call returns what it would have returned without it. (The call that supplies the last part of a multi-part message counts as completing it, whatever the completed message contains.)",
 ["histories","fault_sequences","inputs"],"every history with any number of rejected sentences (bad checksum, unknown or unimplemented type, malformed counts, malformed fields, class B part numbers 2 and 3) inserted anywhere, especially between the parts of pending messages and with the same identity",
 "No test feeds a bad sentence between the parts of a message.",
 [L,"src/gnss/gsv.rs","src/ais/vdm_t24.rs"],[("checksum test before any state change",L),("header parsing before any state change",L)],[FR,VS,GS]),
P("C04","Two-part AIS messages are returned once, whole, in either order",
 "When both parts of a two-part AIS message (same talker, VDM/VDO kind, message id and channel) have arrived, in either order and with any other sentences or delays in between, the call that supplies the second arrival returns the message and the first returns Incomplete. The result is identical to that of the same payload sent as one unfragmented sentence by that talker, wherever the payload was split.",
 ["schedules","histories","fault_sequences"],"every split point, arrival order, amount of interleaved traffic, number of outstanding messages (up to thousands), message id, channel and talker",
 "Two tests reassemble one type-5 and one type-21 message alone on the parser with nothing interleaved.",
 [L,U],[("fragment store keyed by message identity",L),("make_fragment_key",U)],[FR]),
P("C05","Parts of different AIS messages are never combined",
 "Parts that differ in talker, VDM/VDO kind, message id or radio channel are never combined into one message, however deliveries are interleaved, lost, duplicated or reordered and however many messages are outstanding. A part whose counterpart never arrives stays Incomplete and neither yields data nor changes the result of any other message.",
 ["schedules","histories","fault_sequences"],"every set of concurrently outstanding messages with identities chosen to differ in exactly one component or to collide when concatenated, under loss, duplication and reordering",
 "Tests never have two messages outstanding at once.",
 [L,U],[("make_fragment_key",U),("fragment lookup",L)],[FR]),
P("C06","A repeated AIS part replaces the waiting copy and is used at most once",
 "Every part received is used in at most one returned message: completing a message consumes both parts, so a copy arriving later is Incomplete until a counterpart of that copy arrives. A copy of a part that is still waiting replaces it, and the message is built from the latest copy of each part.",
 ["fault_sequences","histories","schedules"],"every pattern of duplicated and re-sent parts of up to a handful of messages per identity, with differing content between copies",
 "No test delivers any part twice before completion or again after it.",
 [L],[("removal of the stored part on completion, overwrite on insertion",L)],[FR]),
P("C07","Satellite groups are returned complete, ordered and once",
 "A group of N GSV sentences of one talker (N from 1 to 9) is returned by exactly the call that supplies its last missing sentence, in any arrival order and with any interleaved traffic; all earlier calls return Incomplete. It holds the satellites of sentences 1..N in that order, taken from the latest copy of each sentence, all attributed to that talker's navigation system; groups of other talkers or of another N never contribute, and nothing of a returned group is used again.",
 ["schedules","histories","fault_sequences"],"every N from 1 to 9, arrival order, loss and duplication pattern, set of concurrently open groups of different talkers and sizes",
 "One test delivers one three-sentence GPS group in order.",
 ["src/gnss/gsv.rs",L],[("GSV store keyed by talker, count and number","src/gnss/gsv.rs")],[GS]),
P("C08","Class B static reports pair one part A with one part B of one vessel",
 "A type 24 report is returned exactly by the call that supplies the missing half of a part A / part B pair of one MMSI, in either order and with any traffic in between, and it carries part A's name and part B's remaining fields. A repeated half replaces the waiting one and stays Incomplete; halves of different MMSIs never pair, and a used half is not used again.",
 ["schedules","histories","fault_sequences"],"every order, loss and duplication pattern of halves of many vessels whose MMSIs may differ in a single bit, outstanding in any number",
 "One test delivers A then B of one vessel; a repeated part A is never tried.",
 ["src/ais/vdm_t24.rs",L],[("store of unpaired halves per MMSI and merge","src/ais/vdm_t24.rs")],[VS]),
P("C09","Interleaving independent sources does not change any source's results",
 "If several sources share no message identity (talker, kind, id and channel for AIS parts; talker for satellite groups; MMSI for class B halves), feeding any interleaving of their streams to one parser returns for each sentence exactly what that source's stream alone would have returned.",
 ["schedules","histories"],"every interleaving of every set of sources, each with its own losses, duplicates and reorderings",
 "Tests use one parser per stream; no test interleaves two streams.",
 ALL,[("all parser state is keyed by message identity",L)],[FR,VS,GS]),
P("C10","Self-contained sentences do not depend on parser history",
 "A sentence that is complete in itself (any GNSS sentence other than GSV, any unfragmented AIS message other than type 24) gives the same result in every parser state as in a new parser at the same clock reading, and it never completes, delays or alters a pending multi-part message.",
 ["histories","schedules"],"every history before the sentence, including pending parts with the same MMSI, message id and channel, and every sentence kind, accepted or rejected",
 "Tests parse each such sentence on a new parser.",
 ALL,[("handlers that take no parser state","src/ais, src/gnss")],[FR,VS,GS]),
P("C11","Parsers are isolated from each other under concurrent use",
 "Several parsers used at the same time from different threads, with calls preempted at any point and parsers handed from thread to thread between calls, each return exactly what they would have returned alone on one thread, and every call finishes.",
 ["schedules","histories"],"every number of parsers and threads, every preemption point inside a call, every migration of a parser between threads, every set of streams (also streams with identical message identities)",
 "Tests run single-threaded on one parser each and never compare.",
 ALL,[("all state is owned by the parser value",L)],[FR,VS,GS]),
P("C12","Results do not depend on hash seeds, logging or local time zone",
 "Two executions of the same sentence history at the same clock readings return the same results, whatever the process's hash seeds, the installed logger and its level, the local time zone and the thread used.",
 ["configurations","histories"],"every hash seed, log level from off to trace, local time zone from -12 to +14 hours, calling thread, and history with up to thousands of pending parts",
 "Tests run in one environment: logging off, one time zone, and too few pending parts for map order to matter.",
 ALL,[("keyed lookups only, UTC only, logging without side effects",L)],[FR,VS,GS]),
P("C13","Retained memory is bounded by what is pending",
 "Memory retained by a parser is bounded by the largest number of parts that were waiting for a counterpart at one time, and does not grow with the number of sentences parsed: a returned message, a rejected sentence and a replaced part leave nothing behind. Dropping the parser releases everything it retained.",
 ["histories","fault_sequences"],"every long history over a bounded set of identities, with loss, duplication, reordering, damage and rejected sentences",
 "Tests parse at most a few sentences and look at private counters, not at memory, and never after errors or repeated parts.",
 [L,"src/gnss/gsv.rs","src/ais/vdm_t24.rs"],[("removal on completion, overwrite on repetition",L)],[FR,VS,GS],["bytes live in the process allocator between calls"]),
P("C14","Every call finishes after work bounded by its input and what is pending",
 "Parsing one sentence finishes after work proportional to the length of that sentence and of the pending parts it combines; numbers written in the sentence (group sizes, part numbers, ids) and the length of the history never cause more work or memory.",
 ["inputs","histories","fault_sequences"],"every sentence, in particular counts and numbers up to the 64-bit limits that survive or arise from damage, after every history",
 "No test uses a count above 3.",
 ["src/gnss/gsv.rs",L],[("GSV group completeness scan","src/gnss/gsv.rs")],[GS],["allocator calls and bytes during a call; CPU time limit"]),
P("C15","Time-of-day fixes are dated with the clock's UTC day at the call",
 "A GGA or GLL sentence with a valid time of day is stamped with that time on the calendar day (UTC) that the system clock shows during that very call, also across midnight, month, leap-day and year boundaries, after clock steps in either direction and in any local time zone; the day is never a mixture of two clock readings nor remembered from an earlier call. With an empty or invalid time of day the timestamp is absent.",
 ["schedules","histories","inputs"],"every clock value and every advance of the clock between reads inside a call, every sequence of clock steps between calls, every time of day, every local time zone",
 "Tests run at one real instant and read the same clock again to build the expectation.",
 [U,"src/gnss/gga.rs","src/gnss/gll.rs"],[("single clock reading passed to parse_hhmmss",U)]),
P("C16","An ETA is the next occurrence of the transmitted month, day and time",
 "The ETA of a static voyage report, given as month, day, hour and minute without a year, is returned as the first such UTC moment (to the minute) not before the clock's current reading within this or the next calendar year, and is absent if neither year has that date. An ETA transmitted as not available (month 0, day 0, hour 24, minute 60) is absent; if only the time (hour 24) or only the minute (60) is not available, the end of that day (23:59) or of that hour (minute 59) is taken.",
 ["inputs","schedules","histories"],"every ETA value against every clock reading, in particular ETAs already past this year, 29 February in any year, ETAs within a minute of the clock, year ends, clock steps between calls",
 "The only test copies the year from the result under test, so it cannot see a wrong year.",
 [U,"src/ais/vdm_t5.rs"],[("choice between this and next year in pick_eta",U)]),
P("C17","RMC timestamps are the transmitted date and time in the clock's century",
 "An RMC sentence with a valid date and time is stamped with exactly the transmitted day, month, two-digit year and time of day, UTC, in the century of the system clock at the call; nothing else of the clock, its steps, the local time zone or the parser's history influences it. An absent or impossible date or time gives no timestamp.",
 ["inputs","schedules","histories"],"every transmitted date and time including 29 February, 00 and 99, every clock reading including century boundaries, every clock step between calls, every time zone",
 "Two dates are tested at one real instant.",
 [U,"src/gnss/rmc.rs"],[("parse_yymmdd_hhmmss",U)]),
P("C18","Multi-part reception recovers once the channel works again",
 "After any period of loss, duplication, reordering and damage, once sentences arrive completely and in order again, each identity (AIS message id and channel of a talker, satellite group of a talker, vessel) may produce at most one wrong or missing message because of leftovers. From its second complete transmission on, every multi-part message is returned exactly as transmitted.",
 ["fault_sequences","histories","schedules"],"every fault period over every set of identities, followed by a fault-free period with several complete transmissions per identity",
 "No test loses, repeats or reorders a part and then goes on.",
 [L,"src/gnss/gsv.rs","src/ais/vdm_t24.rs"],[("newer part replaces a waiting older one",L)],[FR,VS,GS]),
P("C19","A restart loses only the messages in flight",
 "If the consumer is stopped at an arbitrary point between sentences and continues with a new parser, every message all of whose parts arrive after the restart is returned exactly as transmitted, and all later results are those of a process that started at the restart: nothing received before it influences them.",
 ["crash_points","histories","fault_sequences"],"every restart point, in particular between the parts of pending messages, any number of restarts, with loss, duplication and reordering around them",
 "No test replaces a parser in mid-stream.",
 [L],[("parser state lives in the parser value only",L)],[FR,VS,GS]),
P("C20","What is returned is what was transmitted",
 "With checksummed sentences sent over channels that lose, duplicate, delay, reorder, interleave and damage them, every message returned equals a message that some station really transmitted, with every reported field value as transmitted, 'not available' values absent and the vessel's country the one its MMSI is assigned to; damaged sentences contribute nothing. Every message whose sentences all arrive intact is returned. (An identity - AIS message id, satellite group, vessel's class B report - is not reused for another message while one of its parts is still waiting.)",
 ["fault_sequences","histories","schedules"],"every mix of stations sending all supported AIS message types and GNSS sentences with valid field values, every channel fault sequence",
 "Each message type is tested with one or two sentences on a perfect channel and only some of the fields.",
 ALL+["src/ais/vdm_t1t2t3.rs","src/ais/vdm_t18.rs","src/ais/vdm_t21.rs","src/ais/vdm_t24.rs","src/ais/vdm_t27.rs","src/gnss/rmc.rs","src/gnss/gsa.rs"],
 [("checksum test",L),("reassembly",L),("field extraction","src/ais, src/gnss")],[FR,VS,GS]),
P("C21","Clock steps and the passage of time do not affect reassembly",
 "Results that contain no date derived from the clock are the same for every behaviour of the clock: parts of a message combine however much time passes or however far and in whichever direction the clock is stepped between their arrivals, and reported values do not change.",
 ["schedules","histories"],"every clock trajectory (frozen, running, stepped by seconds to centuries in either direction, ticking inside calls) over every history of multi-part and single messages",
 "Tests run within milliseconds of real time.",
 ALL,[("no use of the clock outside date completion",U)],[FR,VS,GS]),
P("N01","AIS fields are decoded as ITU-R M.1371 defines for every bit pattern",
 "For every payload, including reserved, out-of-range, short and over-long ones, each reported field equals the value ITU-R M.1371 assigns to the transmitted bits.",
 ["inputs"],"every payload bit pattern of every supported message type","One or two payloads per type.",
 ["src/ais/mod.rs","src/ais/vdm_t1t2t3.rs","src/ais/vdm_t27.rs"],[("pick_u64/pick_i64/pick_string field extraction",U)]),
P("N02","GNSS fields are decoded as NMEA 0183 defines for every field text",
 "For every field text of GGA, RMC, GSA, GSV, VTG and GLL the reported value equals the number the text denotes, signed by its hemisphere field, and malformed texts are rejected or absent.",
 ["inputs"],"every field text","One or two sentences per type.",
 [U,"src/gnss/gga.rs"],[("pick_number_field, latitude and longitude parsing",U)]),
P("N03","Vessel country is the ISO 3166 code of the MMSI's identification digits",
 "For every MMSI the country is the ISO 3166 code the ITU assigned to its maritime identification digits, and absent where none is assigned.",
 ["inputs"],"every 30-bit MMSI","Fourteen MMSIs are tested.",
 ["src/ais/mod.rs","mid-to-iso3166.py"],[("country table","src/ais/mod.rs")]),
P("N04","Coded values map to their documented variants and texts",
 "For every code, ship type, cargo type, navigation status, position fix type, aid type, FAA mode and fix quality map to the documented variant, and every variant's text is the documented one.",
 ["inputs"],"every code value and variant","A handful of codes are tested.",
 ["src/ais/mod.rs","src/ais/vdm_t21.rs","src/gnss/mod.rs"],[("enum constructors and Display implementations","src/ais/mod.rs")]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in ps: f.write(json.dumps(p,ensure_ascii=False)+"\n")
