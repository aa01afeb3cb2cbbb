import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
M="src/message.rs";D="src/data_dictionary.rs"
p("C01","Parsing any text terminates with a message or a reject, never a crash",
"For every text and every loaded dictionary, parsing the text as a FIX message terminates and returns either a message or a reject: it never panics and never loops forever. This includes empty and truncated texts, arbitrary tag numbers, and repeating-group counts of any size or form. The memory used is bounded by the size of the text: a repeating-group count larger than the text could hold is rejected before any group instance is created.",
["inputs","configurations"],"all texts (any length, any content) and all dictionaries the loader can produce",
"Four sample messages are parsed in the tests; crashes hide in empty input, short input, huge counts and odd tags, which are unbounded in number.",
[M,D],[("Message::from_str","src/message.rs"),("parse_group bounds and counters","src/message.rs"),("parse_header first-three check","src/message.rs")],obs=["Message::from_str return value"])
p("C02","An accepted message holds exactly the fields of its text",
"When a text is accepted, every tag=value field of the text (the value being everything between the first '=' and the next SOH) can be read back unchanged from the section or repeating-group instance it belongs to, and the message holds no other field. A text in which a tag occurs twice in the header, twice in the body or twice in the trailer (outside repeating groups) is rejected rather than losing a value. A text containing a field without '=', with a tag that is not an unsigned 32-bit number, or with an empty value is rejected.",
["inputs","configurations"],"all texts and dictionaries","The tests read back a dozen fields of four messages; loss, misplacement or merging of fields for other tags, values, positions and nestings is not sampled.",
[M],[("Message::from_str","src/message.rs"),("parse_header/parse_body/parse_trailer/parse_group","src/message.rs"),("FieldMap::set_field","src/message.rs")],
state=[dict(name="FieldMap.fields/group",meaning="fields and repeating groups of one section or instance",where=M)],obs=["get_field, get_group, serialised text of the accepted message"])
p("C03","Sections are accepted only in header, body, trailer order",
"A text is accepted only if its first three fields are tags 8, 9 and 35 in that order, all fields the dictionary declares as header fields come before every other field, and all fields it declares as trailer fields come after every other field. Header fields (with their repeating groups) are stored in the header, trailer fields in the trailer, and all others in the body. Any violation is rejected, whatever the values and the number of fields.",
["inputs","configurations"],"all texts and dictionaries","No test contains a single out-of-order message.",[M,D],[("parse_header, parse_body, parse_trailer","src/message.rs"),("DataDictionary::is_header_field/is_trailer_field","src/data_dictionary.rs")])
p("C04","Repeating groups are accepted only when exactly as declared, at every nesting",
"A repeating group that the dictionary defines for the message type (or the header) is accepted only if its count field is a number equal to the number of instances that follow, every instance starts with the group's delimiter field, and the fields and nested groups inside one instance follow the dictionary's order strictly, so that none repeats. The accepted group then has exactly that many instances, in text order, each holding exactly its own fields, and nested groups are judged the same way inside each instance. Anything else is rejected.",
["inputs","configurations"],"all texts, all dictionaries, all nesting depths and counts","Two accepted group messages are tested, no rejection of wrong counts, order or nesting is.",[M,D],[("parse_group","src/message.rs"),("DataDictionary::get_msg_group, get_ordered_fields, GroupInfo::delimiter","src/data_dictionary.rs")])
p("C05","The checksum written equals the byte sum of the message modulo 256",
"For every message, setting the checksum stores in tag 10 exactly three decimal digits giving the sum, modulo 256, of all bytes of the message's serialised fields other than tag 10, including fields in repeating groups at any depth and the separator after each field. This holds for every content, including multi-byte characters, and every size. No other field of the message changes, and setting it again gives the same value.",
["inputs"],"all messages","No test computes a checksum.",[M],[("Message::calc_checksum, set_checksum","src/message.rs")],obs=["tag 10 of the trailer against the serialised text"])
p("C06","The body length written equals the byte count after tag 9 up to tag 10",
"For every message, setting the body length stores in tag 9 the decimal number of bytes that the serialised fields other than tags 8, 9 and 10 occupy, including fields in repeating groups at any depth, the tag digits, the '=' and the separator of each field. Bytes are counted, not characters. No other field of the message changes.",
["inputs"],"all messages","No test computes a body length.",[M],[("Message::calc_body_len, set_body_len","src/message.rs")],obs=["tag 9 of the header against the serialised text"])
p("C07","Serialised layout: 8, 9, 35 first, 10 last, groups behind their count field",
"A message serialises to its header, then its body, then its trailer, where every stored field is written exactly once as tag=value followed by SOH. In a newly created or parsed message tags 8, 9 and 35 (when present) come first in that order, and tag 10 comes last when the trailer holds only the standard trailer fields 93, 89 and 10. Each repeating group's instances follow directly after its count field, in instance order; inside an instance the delimiter field comes first, and the fields of a parsed instance come in dictionary order.",
["inputs"],"all messages built through the API or by parsing","No test serialises a message.",[M],[("FieldMap::iter, FieldMapIter::fieldmap_to_vec","src/message.rs"),("Display for FieldMap, Message, StringField","src/message.rs"),("Message::new, FieldMap::set_group, field_order","src/message.rs")],
state=[dict(name="FieldMap.field_order",meaning="serialisation order of the fields of a section or instance",where=M)])
p("C08","Serialising an accepted message and parsing it again gives the same message",
"If a text is accepted and no field outside a repeating group is one that the dictionary places inside a group of that message, and no trailer field of it is declared as a header field as well, then the serialised form of the parsed message is itself accepted by the same dictionary. The message obtained has the same header, body and trailer fields and the same group instances in the same order as the first one.",
["inputs","configurations"],"all accepted texts and all dictionaries","No test serialises a parsed message.",[M],[("FieldMap::iter against the parse functions","src/message.rs")])
p("C09","Field containers: a write is read back, and nothing else changes",
"Setting a field in a header, body, trailer or group instance makes exactly that tag read back as exactly that value, the last write winning, and leaves every other tag and every group unchanged; reading a tag as a type gives the standard parse of its stored text, and an error when the tag is absent or does not parse, never a default. Creating a group with count n sets its count field to n and yields exactly n empty, independent instances with that delimiter, replacing any earlier group of that tag and touching nothing else.",
["histories","inputs"],"all sequences of set/get/group operations on all tags and values","Tests only read a few fields of parsed messages; frame conditions over arbitrary histories are not sampled.",[M],[("FieldMap::set_field/get_field/set_group/get_group","src/message.rs"),("Group::new/add_group/size/index","src/message.rs"),("Message::set_field/get_field/set_group/get_group","src/message.rs")])
p("C10","The session identity is read from the right fields of any raw message",
"For every raw text, the forward identity uses the first field with tag 8 as begin string, 49, 50, 142 for the sender's comp id, sub id and location id, and 56, 57, 143 for the target's; the reverse identity swaps sender and target. Only whole fields count: digits inside a value or a longer tag such as 108 or 149 never match. A missing field counts as empty, and no text, however truncated, makes this fail.",
["inputs"],"all texts","No test derives a session id from a message.",[M,"src/session/session_id.rs"],[("Message::get_session_id, get_reverse_session_id, extract_field_value","src/message.rs")])
p("C11","Session identities: normal form, equality and text agree",
"A session identity built from parts has the text BEGIN:SENDER[/SUB][/LOCATION]->TARGET[/SUB][/LOCATION], where optional sub and location ids that are empty are treated exactly as absent. Two identities are equal exactly when all their parts (including the qualifier) are equal, and equal identities always hash alike, so a session stored under one is found under the other. An identity built from a configuration section takes its begin string and its comp, sub and location ids from the section, or else from the defaults.",
["inputs","configurations"],"all combinations of parts and of configuration maps","session_id.rs has no tests.",["src/session/session_id.rs"],[("SessionIdBuilder::build, SessionId::set_session_id, from_map, Hash","src/session/session_id.rs")])
p("C12","Configuration lookups respect session-over-default precedence and never guess",
"For every loaded configuration, session, setting name and target type, an optional lookup and an or-default lookup use the session's own value if there is one and otherwise the default section's; a session-only lookup uses only the session's and a default-only lookup only the default's. The value returned is the standard parse of exactly that text. A value that does not parse is reported (as an error, or as a panic by the optional lookup), and is never replaced by the default, by another session's value or by none.",
["configurations","inputs"],"all configurations, sessions, names and value types","The settings tests only check two failing configurations.",["src/session/session_settings.rs"],[("Properties::get_property, get_optional_config, get_config, get_default_config, get_or_default_config","src/session/session_settings.rs")])
p("C13","Loading a configuration keeps every section and rejects incomplete ones",
"Loading a configuration text yields the default section and one session for each later section, each holding exactly its key=value lines with blanks and surrounding quotes removed, the last of repeated keys winning. Loading is refused when there is no default section, a second one, a section before it, or two sections with the same session identity. It is also refused when the connection type is missing or neither acceptor nor initiator, or when some session lacks (after defaults) a begin string FIX.4.2, FIX.4.3 or FIX.4.4, a sender or target comp id, an accept port (acceptor), or a connect host and port (initiator).",
["configurations"],"all configuration texts","Two failing configurations are tested, no successful one.",["src/session/session_settings.rs"],[("Properties::from_str, parse_table, check, session_ids","src/session/session_settings.rs")])
p("C14","The dictionary reflects exactly what the XML specification declares",
"For every accepted XML specification, the fields of a message, the header or the trailer are exactly those it lists directly, through components (expanded recursively) or as group count fields, and a field is required exactly when it is marked required and so is the innermost component reference or group (if any) that lists it. Every group, nested ones likewise, has exactly its declared members in declaration order and its delimiter is the first of them. Field numbers, names, types and enumerated values are those of the fields section.",
["configurations","inputs"],"all XML specifications","27 tests on one bundled file and small hand-written ones; arbitrary nestings of groups and components are unbounded.",[D],[("DataDictionary::from_str, add_xml_message, add_xml_component, add_xml_group, add_fields_to","src/data_dictionary.rs")])
p("C15","Contradictory or incomplete dictionaries are refused with an error",
"Loading an XML specification ends with an error, never a panic and never a silently incomplete dictionary, when it repeats a field number or name, an enumerated value of a field, a field within one message, group, header or trailer (also through components), or a message name or type (the names header and trailer are not free as types); or when a message, the header or the trailer (also through groups and components) refers to a field or component that is not defined in its section, contains an unknown element or has a group without members, or when a required attribute or section is missing. Contents of a component that nothing uses are not examined. Every other specification loads successfully.",
["configurations","inputs"],"all well-formed XML documents","Tests check single hand-written instances of some of these faults.",[D],[("set_field_name_number_type, set_field_for, set_msg_name_type_cat, get_attribute, lookup_node, lookup_field_num_with_name","src/data_dictionary.rs")])
p("C16","A session is active exactly inside its configured time window",
"At every instant and in every time zone, a session with no times is always active; one with daily times is active exactly when the zone's local time of day is between start and end inclusive, a start later than the end meaning overnight; one with days and times is active exactly from the start day at the start time to the end day at the end time inclusive, repeating weekly and possibly spanning the week's end. Start and end on the same weekday mean that one day's interval, start not later than end. No instant, including clock changes of the zone, makes the check fail, and a configuration giving only one of the two times, only one of the two days, or days without times is refused.",
["inputs","configurations"],"all instants, time zones and schedules","The schedule tests read the real clock and assert almost nothing.",["src/session/session_schedule.rs"],[("SessionSchedule::is_session_time, create_schedule","src/session/session_schedule.rs")])
p("C17","FIX type and connection type names map one to one",
"Each of the FIX data type names is recognised as its own type and each type prints its own name, so that reading a printed type gives the type back; any other text is read as the unknown type. The connection type is read as acceptor or initiator from those words in any letter case, and any other text is refused.",
["inputs"],"all texts","Only the types used in the bundled dictionary are covered; unknown names and letter cases are not.",[D,"src/network.rs"],[("FromStr and Display for FixType","src/data_dictionary.rs"),("FromStr for ConnectionType","src/network.rs")])
p("C18","The byte stream is cut exactly at the end of each checksum field",
"For every sequence of bytes arriving on a connection and every way it is split into reads, the messages handed on are exactly the consecutive pieces that each end with the SOH closing the first field beginning with 10= in that piece, decoded as UTF-8: no byte is lost, duplicated or moved to another message. When the stream ends or fails, reading stops, nothing incomplete is handed on, and no empty messages are produced.",
["inputs","schedules","fault_sequences"],"all byte streams and all splits into reads","The network code has no tests.",["src/io/acceptor.rs"],[("read_message, start_socket_listener_task","src/io/acceptor.rs")])
p("C19","No inbound text stops the engine; each valid one reaches the application once",
"For every sequence of inbound texts, each text whose reversed session identity is configured and which that session's dictionary accepts is handed to the application exactly once, in arrival order, together with that identity and the parsed message; every other text is dropped. No text, and no reply to a session that has no connection, stops the processing of later texts.",
["histories","inputs","fault_sequences"],"all sequences of inbound texts","The network code has no tests.",["src/network.rs","src/session/session_and_state.rs"],[("start_receiver_task","src/network.rs"),("Session::sync_send_to_target","src/session/session_and_state.rs")])
p("C20","Every configured session runs with its own effective settings",
"For every loaded configuration, exactly one session is created per configured session section, under that section's identity. Its heartbeat interval, its three reset flags and its dictionary file are those of its section, else of the default section, else 30, true, true, true and the bundled FIX 4.3 dictionary; it starts inactive, with an empty queue and no connection.",
["configurations"],"all configurations","No test creates a session.",["src/session/session_and_state.rs","src/network.rs"],[("Session::with_settings","src/session/session_and_state.rs"),("create_sessions","src/network.rs")])
p("C21","Outbound messages reach the connection whole and in sending order",
"Every message sent to a session whose port has a connection is written to that connection completely, exactly once and in sending order, as its serialised text, with nothing in between or left out, for every message, any number of sending threads (a thread's own messages stay in their order, texts are never mixed) and slow peers; every connection accepted gets one reader and one writer. Sending to a session without a connection, or to one that is not configured, sends nothing and stops nothing.",
["schedules","fault_sequences"],"all messages, all interleavings of sending threads, connection tasks and socket readiness","The network code has no tests, and a test samples one schedule.",["src/io/acceptor.rs","src/session/session_and_state.rs"],[("start_app_listner_task, IoAcceptor::create, IoAcceptor::start","src/io/acceptor.rs"),("Session::sync_send_to_target","src/session/session_and_state.rs")])
p("C22","A rejected text carries the reject reason of the rule it breaks",
"The reason attached to a rejected text is that of the first rule it breaks, fields being split and checked before the message is built: invalid tag for a field without '=' or a non-numeric tag, tag without value for an empty value, out of order for section order violations, tag appears more than once for a repeated tag, incorrect data format for a non-numeric group count, incorrect count for a group whose instances do not match its count, required tag missing for a group member before the first delimiter, and group out of order for members in the wrong order.",
["inputs","configurations"],"all rejected texts","No test asserts a reject reason.",[M,"src/quickfix_errors.rs"],[("SessionRejectError constructors at each reject site","src/message.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
