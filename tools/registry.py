"""Which units prove which property. In `units` the value is "*" or a regular expression of the functions of the
unit whose obligations the property does NOT depend on."""

UNIT_ASSUMPTIONS = {
    "session_id": [
        "HashMap<String, String> behaves as a map keyed by the text of the string (vstd's contract of std::collections::HashMap)",
        "two Strings with the same characters are the same value (axioms mk/string_eq in units/common.rs)",
        "str::split_terminator and str::split_once behave as documented (contracts of VStr in units/common.rs)",
        "std's Hash for String depends on the text only; #[derive(Clone, PartialEq, Eq)] is the field-wise one; derive_builder and getset generate setters, defaults and getters as documented (setters with into and strip_option, getters returning references)",
    ],
    "fieldmap": [
        "HashMap<u32, V> behaves as a map (vstd's contracts; values() yields every value once in some order, get_mut gives the stored value)",
        "std iterators and adaptors used here (iter, into_iter, chain, position, filter_map, map, sum, collect, String::from_iter) and sort_by_cached_key behave as documented (contracts in units/vec.rs: an iterator is taken as the vector of what it yields)",
        "formatting with {} prints integers in decimal and text unchanged, {:0>3} pads with zeros on the left; String is UTF-8 (vstd::utf8)",
        "parse::<T> is a function of the text (its values are uninterpreted, except that parsing as String gives the text)",
        "#[derive(Clone, Default)] and getset accessors are the field-wise ones",
        "calc_body_len: the number of bytes of the serialised message fits usize (it is a text in memory)",
        "containers come from the public API or the parser, which keep them well formed (every mutator is under contract; fields are private)",
    ],
    "parse": [
        "the dictionary lists each group's members, delimiter first (dwf in units/dict_spec.rs): proved of every dictionary that loads in unit dictload (c14_loaded_is_well_formed) as long as no group lists 2^31 members; texts are shorter than 2^31 characters",
        "the contracts of unit fieldmap (their bodies are verified there, by the same check)",
        "str::split_terminator, split_once and parse::<u32> behave as documented; parse::<u32> reads back what to_string wrote (ax_parse_dec)",
        "Vec, VecDeque, HashMap and IndexSet behave as sequences, a map and a sequence without repetitions (vstd and units/vec.rs, units/dict_spec.rs)",
        "the generated field types BeginString, BodyLength and MsgType have the tags 8, 9 and 35",
        "stack space for the nesting depth of the dictionary's groups",
    ],
    "dictload": [
        "roxmltree: Document::parse gives the tree of the document or an error (which tree belongs to which text is not specified); children, tag_name().name, is_element, has_tag_name, attribute and root_element report that tree (contracts in units/xml.rs)",
        "std iterators and adaptors used here (children().filter, find) behave as documented (contracts of v_filter, v_find)",
        "HashMap, HashSet, IndexSet and the map entry API behave as maps, sets and a sequence without repetitions (vstd and units/vec.rs, units/xml.rs, units/dict_spec.rs); cloning a map of nodes copies it",
        "str::eq_ignore_ascii_case, parse::<u32> and formatting with {} behave as documented",
        "FixType::from_str is verified against the same table as unit types; the error values XmlError carry are not specified (only that an error is returned)",
        "stack space for the nesting depth of groups and components",
        "fs::read_to_string gives the text of the file, if it can be read (units/file.rs)",
    ],
    "settings": [
        "str::trim, trim_start_matches, trim_end_matches, starts_with, ends_with, contains, split_once and lines behave as documented (contracts in units/trim.rs; white space is Unicode White_Space)",
        "Peekable<Lines> is the sequence of the lines still to come; HashMap behaves as a map, its keys() yields every key once (contracts in units/trim.rs, units/settings_spec.rs)",
        "SessionId as a map key: derive(PartialEq, Eq) compares all parts, its Hash feeds a text that depends on the parts only (proved in unit session_id)",
        "the contracts of SessionId::from_map and SessionId::default (their bodies are verified in unit session_id)",
        "the standard parse of a text as F is a function of the text (uninterpreted; parsing as String gives the text)",
        "fs::read_to_string gives the text of the file, if it can be read (units/file.rs)",
    ],
    "schedule": [
        "chrono: a date has a number, its weekday is that number modulo 7, pred and succ step by one while the date is in chrono's range, dates and times compare by day and point of day, and_time and naive_local give the parts (contracts in units/chrono.rs)",
        "the local wall clock of a zone at an instant is uninterpreted (any, also at clock changes); the dates up to eight days around it are in chrono's range",
        "the standard parse of a text as NaiveTime, Weekday or Tz is a function of the text (uninterpreted)",
        "the contracts of Properties::get_optional_config and get_property (their bodies are verified in unit settings, by the same check)",
        "SessionSchedule::new and the derived builder are public: is_session_time is proved for schedules with both days or none, which create_schedule always gives",
        "find_nearest_interval, session_time and is_current_time_between (printing helpers nothing calls) are not under contract",
    ],
    "stream": [
        "read_until appends exactly the bytes up to and including the next SOH, or the rest of the stream when there is none, however the bytes are split into reads, and an error means that nothing more comes (contract in units/stream_spec.rs)",
        "from_utf8_lossy decodes valid UTF-8 (and is uninterpreted otherwise)",
        "sending on the channel to the application succeeds while its receiver lives, which is as long as the engine runs, and the channel keeps the order",
        "async and await are dropped: a task is verified as a sequential program between its awaits; tokio::spawn runs the block to its end (it is verified in place)",
        "a broadcast receiver delivers every text sent after it subscribed, whole and in one order, until it is closed or more texts wait than it holds (32; then it drops the oldest and reports it: known finding of C21)",
        "write_all writes all bytes or fails, having written a prefix",
    ],
    "accept": [
        "tokio: bind gives a listener of that address, accept gives its next connection, into_split the two halves of it, subscribe a receiver of the same channel; starting a task is recorded, what the tasks do is verified in unit stream",
        "IoAcceptor::start runs for ever (its loop is not shown to make progress); connections that bind or accept refuse are retried",
    ],
    "engine": [
        "DashMap is a map (no other thread changes which sessions there are or their dictionaries; a reference into it is taken as a plain reference, its lock is not modelled), Arc is the value it holds",
        "mpsc: blocking_recv yields the texts in the order they came until the queue is closed; broadcast: send returns whether or not a connection listens",
        "the from_app of an application returns (DefaultApplication's does: verified); printing returns",
        "thread::spawn runs the closure to its end (it is verified in place)",
        "texts are shorter than 2^31 characters",
        "the contracts of Message::from_str, get_reverse_session_id, the settings lookups, DataDictionary::from_xml and ConnectionType::from_str (their bodies are verified in units parse, session_id, settings, dictload and types); dictionaries that load are well formed (c14_loaded_is_well_formed)",
        "the contract of test_logon (its body is verified in unit sample)",
    ],
    "sample": [
        "chrono: reading the clock and formatting a time return, and a formatted sending time is at most 32 characters long",
    ],
    "wire": [
        "DashMap is a map shared by all handles that come from one another by clone; entry(..).and_modify(..) changes exactly that entry; no other thread changes the map during start_accepting_connections",
        "std HashMap: entry, iter (every pair once, in some order), collect of pairs behave as documented; SocketAddr is a map key like any other; 127.0.0.1:<port> is an address for every port",
        "starting a task or an acceptor is recorded; what they do is verified in units engine, accept and stream (IoAcceptor::create's contract in unit accept)",
        "derive(Clone) is field-wise, so a cloned SessionMap shares its DashMap (Arc)",
    ],
    "types": [
        "str::eq_ignore_ascii_case compares letter case aware as documented; formatting with {} of a str prints it unchanged",
    ],
}

PROPS = {
    "C10": dict(
        units={"session_id": r"SessionId::from_map|SessionId::default|SessionId::hash|SessionId::fmt|SessionIdBuilder::new"},
        level="proof", search="random raw texts built from tags close to the identity tags; both identities against a plain scan of the text",
        note="Unbounded proof that get_session_id and get_reverse_session_id return exactly the parts the text determines, for every text (panic freedom included)",
        theorems=["Message::get_session_id", "Message::get_reverse_session_id", "extract_field_value", "SessionIdBuilder::build"]),
    "C11": dict(
        units={"session_id": r"extract_field_value|Message::get_session_id|Message::get_reverse_session_id"},
        level="proof", search="random identities built by every route; parts, text, equality, hash and map lookup against plain tuples",
        note="Unbounded proof of the normal form, the text, equality <=> equality of parts, and that equal identities feed the hasher the same text",
        theorems=["SessionIdBuilder::build", "SessionId::set_session_id", "SessionId::from_map", "SessionId::hash", "SessionId::fmt"]),
    "C05": dict(
        units={"fieldmap": r"Message::calc_body_len|Message::set_body_len|c07_.*|FieldMap::get_field|Message::get_field|Group::.*|FieldMap::set_field_order|Message::get_msg_type|Message::set_group|FieldMap::get_group|Message::get_group"},
        level="proof", search="random messages built through the API; tag 10 against the byte sum of the serialised text",
        note="Unbounded proof that set_checksum stores the three digits of the byte sum mod 256 of all serialised fields but tag 10, for every container content, group depth and hash iteration order (the sum is the same for every layout), changes nothing else and is idempotent",
        theorems=["Message::calc_checksum", "Message::set_checksum", "FieldMapIter::fieldmap_to_vec", "lem_perm", "c05_c06_totals_of_the_text", "c05_three_digits"]),
    "C06": dict(
        units={"fieldmap": r"Message::calc_checksum|Message::set_checksum|c07_.*|FieldMap::get_field|Message::get_field|Group::.*|FieldMap::set_field_order|Message::get_msg_type|Message::set_group|FieldMap::get_group|Message::get_group"},
        level="proof", search="random messages built through the API; tag 9 against the byte count of the serialised text",
        note="Unbounded proof that set_body_len stores the decimal number of bytes of all serialised fields but tags 8, 9, 10, for every content, group depth and hash iteration order, and changes nothing else",
        theorems=["Message::calc_body_len", "Message::set_body_len", "FieldMapIter::fieldmap_to_vec", "lem_perm", "c05_c06_totals_of_the_text"]),
    "C07": dict(
        units={"fieldmap": r"Message::calc_.*|Message::set_checksum|Message::set_body_len|c05_.*|lem_set_weightless|FieldMap::get_field|Message::get_field|Message::get_msg_type|Group::size"},
        level="proof", search="random messages built through the API or parsed; serialised text against the expected layout",
        note="Unbounded proof that every serialisation is a layout of the containers: every field once, header, body, trailer, in field order, group instances directly behind their count field in instance order; 8, 9, 35 first and 10 last follow from the orders of Message::new. That a parsed instance has the dictionary's order is the contract of parse_group (unit parse)",
        theorems=["FieldMapIter::fieldmap_to_vec", "FieldMap::fmt", "Message::fmt", "StringField::fmt", "c07_header_starts_with_8_9_35", "c07_trailer_ends_with_10", "c07_group_behind_its_count", "c07_order_inside_a_container", "c07_every_field_once"]),
    "C09": dict(
        units={"fieldmap": r"Message::calc_.*|Message::set_checksum|Message::set_body_len|c0[57]_.*|lem_.*|total_is|arranged.*|FieldMapIter::.*|FieldMap::v_iter|.*::fmt|Group::size"},
        level="proof", search="random histories of set, get and group operations against a reference map",
        note="Unbounded proof of the frame contracts of every mutator and reader of a container, so that every history behaves as a map of fields and a map of groups",
        theorems=["FieldMap::set_field", "FieldMap::get_field", "FieldMap::set_group", "FieldMap::get_group", "Message::set_group", "Group::v_index", "Group::v_index_mut", "Group::add_group"]),
    "C17": dict(
        units={"types": "*"},
        level="proof", search="all names, and random edits of them; reading, printing, reading back",
        note="Unbounded proof of the two tables: reading, printing, round trip, and of the connection type words in any letter case",
        theorems=["FixType::from_str", "FixType::fmt", "ConnectionType::from_str"]),
}

PROPS["C12"] = dict(units={"settings": r"Properties::(from_str|new|check|session_ids)|parse_table|c13_.*|lem_.*|nsec_dec|run_dec"},
    level="proof", search="random configurations, names and target types against a reference lookup",
    note="Unbounded proof for every loaded configuration, session, name and target type: which section's text is used and that the result is its standard parse, an error or (optional lookup) a panic when it does not parse",
    theorems=["Properties::get_property", "Properties::get_default_property", "Properties::get_optional_config", "Properties::get_default_config", "Properties::get_config", "Properties::get_or_default_config"])
PROPS["C13"] = dict(units={"settings": r"Properties::get_(default_config|config|or_default_config)", "session_id": r"extract_field_value|Message::get_.*|SessionId::fmt"},
    level="proof", search="random configuration texts against a reference reader",
    note="Unbounded proof that from_str returns exactly the sections of the text (run, table in units/settings_spec.rs) when they form a configuration, panics only when they do not, and terminates",
    theorems=["Properties::from_str", "Properties::new", "parse_table", "Properties::check", "Properties::session_ids", "SessionId::from_map", "c13_every_section_kept", "c13_misplaced_section_refused", "c13_no_default_refused", "c13_last_key_wins"])
PROPS["C16"] = dict(units={"schedule": "", "settings": r"Properties::(from_str|new|check|session_ids|get_default_config|get_config|get_or_default_config)|parse_table|c13_.*|lem_.*|nsec_dec|run_dec"},
    level="proof", search="random schedules, zones and instants against a reference calendar",
    note="Unbounded proof that the answer is that of the schedule's windows at the zone's wall clock of the instant asked for, for every day, time, zone and instant, that both loops end within a week, and that nothing can panic; create_schedule reads exactly the five settings and refuses incomplete ones",
    theorems=["SessionSchedule::create_schedule", "SessionSchedule::is_session_time", "lem_closed_before", "lem_closed_after", "lem_open", "c16_same_day", "c16_repeats_weekly", "Properties::get_optional_config"])
PROPS["C18"] = dict(units={"stream": ""},
    level="proof", search="random byte streams and splits into reads against a reference cutter",
    note="Unbounded proof that for every byte stream the texts handed on are exactly the decoded pieces (pieces in units/stream_spec.rs), in order, none of them incomplete or empty, and that both loops end with the stream; independence of the splits is the contract of read_until",
    theorems=["read_message", "start_socket_listener_task", "c18_pieces_partition_the_stream"])
PROPS["C19"] = dict(units={"sample": "Message::set_sending_time|lem_.*", "wire": r"SocketAcceptor::set_session_responder|lem_partly", "engine": r"Session::with_settings|create_sessions|SocketAcceptor::new", "session_id": r"SessionId::from_map|SessionId::default|SessionId::hash|SessionId::fmt|SessionIdBuilder::new|Message::get_session_id"},
    level="proof", search="random sequences of inbound texts; calls of the application against the expected ones",
    note="Unbounded proof, for every sequence of inbound texts and every set of sessions, that the calls of from_app are exactly the due ones (due in units/engine_spec.rs), once each, in order, with that identity and parsed message, that nothing in the loop can panic and that it ends only with the queue",
    theorems=["start_receiver_task", "SocketAcceptor::start_accepting_connections", "Session::verify", "Session::sync_send_to_target", "DefaultApplication::from_app", "SessionMap::get_session", "Message::get_reverse_session_id"])
PROPS["C20"] = dict(units={"engine": r"start_receiver_task|Session::verify|Session::sync_send_to_target|.*from_app|lem_due_step|due", "settings": r"Properties::(from_str|new|check|get_default_config|get_config|get_or_default_config)|parse_table|c13_.*|lem_(sect|tlen|table_step)|nsec_dec|run_dec"},
    level="proof", search="random configurations; created sessions against the settings",
    note="Unbounded proof, for every loaded configuration, that create_sessions and SocketAcceptor::new give exactly one session per configured section under its identity, each with the settings of its section, else of the defaults, else 30, true, true, true and the bundled dictionary, inactive, with an empty queue and no connection; a setting that does not parse refuses the configuration",
    theorems=["Session::with_settings", "create_sessions", "SessionMap::from_iter", "SocketAcceptor::new", "Properties::get_optional_config", "Properties::session_ids"])
PROPS["C21"] = dict(units={"wire": "", "stream": r"read_message|start_socket_listener_task|c18_.*|lem_.*|cut_dec", "accept": "", "engine": r"Session::with_settings|create_sessions|SocketAcceptor::new|start_receiver_task|Session::verify|.*from_app|lem_due_step|due"},
    level="proof", search="messages sent by several threads to sessions with real connections and slow peers; the bytes each connection gets",
    note="Unbounded proof that sending puts the whole serialised message exactly once on the queue of the session's connection (and nothing without one), that the writer of a connection writes exactly the texts its queue delivers, whole and in order, until the queue ends or the connection breaks, and that every accepted connection gets one reader and one writer on the queue the sessions send to; the interleaving of senders is the queue's contract (a broadcast channel hands every receiver the texts in one order), its overflow a known finding; that start_accepting_connections starts one acceptor per configured port and connects every session to the acceptor of its port, and that all of them feed the one queue the receiver task reads",
    theorems=["Session::sync_send_to_target", "start_app_listner_task", "IoAcceptor::create", "IoAcceptor::start", "SocketAcceptor::start_accepting_connections", "SocketAcceptor::set_session_responder"])
_DQ = r"DataDictionary::get_(field_type|field_values|msg_required_field|msg_fields|ordered_fields|msg_group)|DataDictionary::is_.*"
PROPS["C14"] = dict(units={"dictload": r"c15_.*|lem_(def|msg)_at"},
    level="proof", search="random XML specifications against a reference expansion",
    note="Unbounded proof that every accepted document gives a dictionary whose fields, members, required members, groups (delimiter, order, nesting), names, types and values are exactly those its sections declare (spec_of and loaded in units/dictload_spec.rs), for every nesting of groups and components, and that the queries report them; such a dictionary meets the precondition of parsing",
    theorems=["DataDictionary::from_str", "DataDictionary::from_xml", "DataDictionary::add_xml_message", "DataDictionary::add_xml_group", "DataDictionary::add_xml_component", "DataDictionary::add_fields_to", "DataDictionary::add_fields_and_values", "DataDictionary::is_msg_field", "DataDictionary::is_msg_req_field", "DataDictionary::get_msg_group", "DataDictionary::get_ordered_fields", "c14_loaded_is_well_formed", "c14_required_and_counts_are_members"])
PROPS["C15"] = dict(units={"dictload": r"c14_.*|lem_giwf|lem_sect_wf|" + _DQ},
    level="proof", search="random XML specifications with one planted fault, and without",
    note="Unbounded proof that loading a well-formed document succeeds exactly when it declares a specification (spec_of in units/dictload_spec.rs), terminates (also with components that refer to themselves) and never panics; the listed faults have no specification",
    theorems=["DataDictionary::from_str", "get_attribute", "lookup_node", "lookup_field_num_with_name", "get_component_nodes_by_name", "get_field_values", "DataDictionary::set_field_name_number_type", "DataDictionary::set_field_for", "DataDictionary::set_msg_name_type_cat", "c15_repeated_field_refused", "c15_repeated_message_refused", "c15_faulty_member_refused", "c15_undefined_reference_refused", "c15_missing_section_refused"])

# parsing: the functions of unit parse and the container operations of unit fieldmap they call
_PARSE_FM = r"Message::calc_.*|Message::set_.*|Message::get_.*|c0[57]_.*|lem_.*|total_is|arranged.*|FieldMapIter::.*|FieldMap::v_iter|.*::fmt"
_PARSE = ["parse_group", "parse_header", "parse_body", "parse_trailer", "from_vec", "Message::from_str"]
for _p, _x, _t, _n, _s in [
    ("C01", r"c0\d_.*|lem_c08.*", [], "Unbounded proof that parsing terminates for every text and well-formed dictionary without a panic (index, unwrap, overflow, slice, capacity), and that a group count is at most the number of remaining fields before instances are created",
     "random dictionaries and texts (mutated valid messages, odd tags, huge counts); panics, memory and time"),
    ("C02", r"c0[348]_.*|lem_c08.*", ["c02_accepted_holds_the_fields", "c02_bad_field_rejected", "c02_value_is_the_rest", "lem_message_sound"],
     "Unbounded proof that an accepted message holds exactly the fields of its text, in the container they belong to, that repeated fields are rejected and that malformed fields are",
     "random dictionaries and texts; accepted messages against the fields of the text"),
    ("C03", r"c0[248]_.*|lem_c08.*", ["c03_sections_in_order", "lem_message_sound"], "Unbounded proof that an accepted text starts with 8, 9, 35 and is cut into header, body and trailer fields by the dictionary, in that order",
     "random dictionaries and texts; accepted section order and section membership against the dictionary's source"),
    ("C04", r"c0[238]_.*|lem_c08.*", ["c04_groups_as_declared", "lem_message_sound"], "Unbounded proof, by induction over nesting, that every group of an accepted message has its declared count, delimiter-first instances and strictly rising member positions",
     "random dictionaries with nested groups; accepted groups against a reference reader"),
    ("C08", r"c0[234]_.*", ["c08_round_trip", "lem_group_ext", "lem_insts_ext", "lem_same_gt", "lem_text_again"], "Unbounded proof that the text written for an accepted message is accepted again and gives a message with the same fields and groups, for every layout the containers' hash order may give",
     "random accepted texts; the serialised form parsed again"),
    ("C22", r"c0\d_.*|lem_c08.*", [], "Unbounded proof that the kind of every reject equals the one the rules of parsing (p_text in units/parse_spec.rs) give, for every text and dictionary",
     "random rejected texts; the reason against a reference reader"),
]:
    PROPS[_p] = dict(units={"parse": _x, "fieldmap": _PARSE_FM if _p != "C08" else r"Message::calc_.*|Message::set_.*|Message::get_.*|c05_.*|lem_set_weightless"},
                     level="proof", search=_s, note=_n, theorems=_PARSE + _t)

BOUNDED = "Not yet under contract: bounded random search of the real code against an independent oracle. "
for _p, _s in {
    "C01": "random dictionaries and texts (mutated valid messages, odd tags, huge counts); panics, memory and time",
    "C02": "random dictionaries and texts; accepted messages against the fields of the text",
    "C03": "random dictionaries and texts; accepted section order and section membership against the dictionary's source",
    "C04": "random dictionaries with nested groups; accepted groups against a reference reader",
    "C05": "random messages built through the API; tag 10 against the byte sum of the serialised text",
    "C06": "random messages built through the API; tag 9 against the byte count of the serialised text",
    "C07": "random messages built through the API or parsed; serialised text against the expected layout",
    "C08": "random accepted texts; the serialised form parsed again",
    "C09": "random histories of set, get and group operations against a reference map",
    "C12": "random configurations, names and target types against a reference lookup",
    "C13": "random configuration texts against a reference reader",
    "C14": "random XML specifications against a reference expansion",
    "C15": "random XML specifications with one planted fault, and without",
    "C16": "random schedules, zones and instants against a reference calendar",
    "C18": "random byte streams and splits into reads against a reference cutter",
    "C19": "random sequences of inbound texts; calls of the application against the expected ones",
    "C20": "random configurations; created sessions against the settings",
    "C22": "random rejected texts; the reason against a reference reader",
}.items():
    PROPS.setdefault(_p, dict(units={}, level="exploration", search=_s, note=BOUNDED + _s, theorems=[]))

NOT_APPLICABLE = {}
