// the 24 data types and their names in the specification
pub open spec fn type_name(t: FixType) -> Seq<char> {
    match t {
        FixType::Char => "CHAR"@, FixType::Boolean => "BOOLEAN"@, FixType::Data => "DATA"@, FixType::Float => "FLOAT"@,
        FixType::Amt => "AMT"@, FixType::Percentage => "PERCENTAGE"@, FixType::Price => "PRICE"@, FixType::PriceOffset => "PRICEOFFSET"@,
        FixType::Qty => "QTY"@, FixType::Int => "INT"@, FixType::Length => "LENGTH"@, FixType::NumInGroup => "NUMINGROUP"@,
        FixType::Seqnum => "SEQNUM"@, FixType::Tagnum => "TAGNUM"@, FixType::Str => "STRING"@, FixType::Country => "COUNTRY"@,
        FixType::Currency => "CURRENCY"@, FixType::Exchange => "EXCHANGE"@, FixType::LocalMktDate => "LOCALMKTDATE"@,
        FixType::MonthYear => "MONTHYEAR"@, FixType::MultipleValueString => "MULTIPLEVALUESTRING"@, FixType::UtcDate => "UTCDATE"@,
        FixType::UtcTimeOnly => "UTCTIMEONLY"@, FixType::UtcTimestamp => "UTCTIMESTAMP"@, FixType::Unknown => "UNKNOWN"@,
    }
}
// t is the type a text s stands for
pub open spec fn reads_as(s: Seq<char>, t: FixType) -> bool {
    if t is Unknown { forall|u: FixType| !(u is Unknown) ==> s != #[trigger] type_name(u) } else { s == type_name(t) }
}
pub proof fn names_distinct()
    ensures forall|a: FixType, b: FixType| #[trigger] type_name(a) == #[trigger] type_name(b) ==> a == b,
{
    reveal_strlit("CHAR"); reveal_strlit("BOOLEAN"); reveal_strlit("DATA"); reveal_strlit("FLOAT"); reveal_strlit("AMT");
    reveal_strlit("PERCENTAGE"); reveal_strlit("PRICE"); reveal_strlit("PRICEOFFSET"); reveal_strlit("QTY"); reveal_strlit("INT");
    reveal_strlit("LENGTH"); reveal_strlit("NUMINGROUP"); reveal_strlit("SEQNUM"); reveal_strlit("TAGNUM"); reveal_strlit("STRING");
    reveal_strlit("COUNTRY"); reveal_strlit("CURRENCY"); reveal_strlit("EXCHANGE"); reveal_strlit("LOCALMKTDATE"); reveal_strlit("MONTHYEAR");
    reveal_strlit("MULTIPLEVALUESTRING"); reveal_strlit("UTCDATE"); reveal_strlit("UTCTIMEONLY"); reveal_strlit("UTCTIMESTAMP"); reveal_strlit("UNKNOWN");
    assert forall|a: FixType, b: FixType| #[trigger] type_name(a) == #[trigger] type_name(b) implies a == b by {
        assert(type_name(a).len() == type_name(b).len());
        assert(type_name(a)[0] == type_name(b)[0]);
        assert(type_name(a)[2] == type_name(b)[2]);
    }
}
// C17, third clause: reading a printed type gives the type back
pub proof fn printed_type_reads_back(t: FixType, u: FixType)
    ensures reads_as(type_name(t), t), reads_as(type_name(t), u) ==> t == u,
{ names_distinct(); }
