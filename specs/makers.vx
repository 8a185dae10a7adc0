//@ include base.vx
global size_of usize == 8;
//@ emit
// ---------------------------------------------------------------- what a simple selector reads from the text it was matched against
/// the boxed closures of the rules: each value stands for the closure of that rule, proved in unit cond or ident (rule `boxed`)
enum MatchOneHandle { Class { class_name: Vec<char> }, Name { name: Vec<char> }, Contains { search: Vec<char> }, Always }
enum MatchAllHandle { Id { id: String }, All }
#[verifier::external_body]
struct MatchSpecifiedHandle;
//@ item mesdoc/selector/rule.rs Matcher
//@ item mesdoc/selector/pattern.rs Matched
//@ emit
/// std HashMap of texts
#[verifier::external_body]
struct DataMap(());
type MatchedData = DataMap;
type MatchedQueue = Vec<Matched>;
spec fn txt(v: Option<&String>) -> Option<Seq<char>> { match v { Some(s) => Some(s@), None => None } }
uninterp spec fn look(m: &DataMap, k: Seq<char>) -> Option<Seq<char>>;
impl DataMap {
    /// TRUSTED: HashMap::get
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&String>)
        ensures txt(r) == look(self, k@),
    { unimplemented!() }
}
//@ closure mesdoc/rules/class.rs init 0 as class_maker
//@ prop C10 C05
//@ rule boxed 0 => MatchOneHandle::Class { class_name }
//@ rule text ..Default::default() => all_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn class_maker(mut data: MatchedQueue) -> (r: Matcher)
//@ header
    requires data@.len() > 1,
    ensures r.all_handle is None && r.specified_handle is None && !r.in_cache && (r.one_handle matches Some(MatchOneHandle::Class { class_name }) && class_name@ == data@[1].chars@),
//@ closure mesdoc/rules/name.rs init 0 as name_maker
//@ prop C10
//@ rule boxed 0 => MatchOneHandle::Name { name }
//@ rule text ..Default::default() => all_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn name_maker(mut data: MatchedQueue) -> (r: Matcher)
//@ header
    requires data@.len() > 0,
    ensures r.all_handle is None && r.specified_handle is None && !r.in_cache && (r.one_handle matches Some(MatchOneHandle::Name { name }) && name@ == data@[0].chars@),
//@ closure mesdoc/rules/id.rs init 0 as id_maker
//@ prop C02
//@ rule boxed 0 => MatchAllHandle::Id { id }
//@ rule text ..Default::default() => one_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn id_maker(data: MatchedQueue) -> (r: Matcher)
//@ header
    requires data@.len() > 1,
    ensures r.one_handle is None && r.specified_handle is None && (r.all_handle matches Some(MatchAllHandle::Id { id }) && id@ == data@[1].chars@),
//@ closure mesdoc/rules/all.rs init 0 as all_maker
//@ prop C02
//@ rule boxed 0 => MatchAllHandle::All
//@ rule text ..Default::default() => one_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn all_maker() -> (r: Matcher)
//@ header
    ensures r.one_handle is None && r.specified_handle is None && r.all_handle == Some(MatchAllHandle::All) && !r.in_cache,
//@ emit
/// the text asked for: without its quotes
spec fn unquoted(s: Seq<char>) -> Seq<char> { if s.len() > 0 && (s[0] == '"' || s[0] == '\'') { s.subrange(1, s.len() - 1) } else { s } }
//@ closure mesdoc/rules/pseudo.rs pseudo_contains 0 as contains_maker
//@ prop C10 C16
//@ rule boxed 0 => MatchOneHandle::Contains { search }
//@ rule boxed 1 => MatchOneHandle::Always
//@ rule text ..Default::default() => all_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn contains_maker(mut data: MatchedQueue) -> (r: Matcher)
//@ header
    requires
        data@.len() > 2,
        // what the pattern of the rule lets through: a quoted text has both quotes
        data@[2].chars@.len() > 0 && (data@[2].chars@[0] == '"' || data@[2].chars@[0] == '\'') ==> data@[2].chars@.len() > 1,
    ensures
        r.all_handle is None && r.specified_handle is None && !r.in_cache,
        data@[2].chars@.len() == 0 ==> r.one_handle == Some(MatchOneHandle::Always),
        data@[2].chars@.len() > 0 ==> (r.one_handle matches Some(MatchOneHandle::Contains { search }) && search@ == unquoted(data@[2].chars@)),
//@ init mesdoc/rules/attr.rs init attr_key
//@ prop C10
//@ sig
fn attr_key(data: &MatchedQueue) -> (r: String)
//@ header
    requires data@.len() > 2,
    ensures r@ == data@[2].chars@,
//@ emit
/// the first of the three groups that matched
spec fn wanted(m: &DataMap) -> Option<Seq<char>> { if look(m, "2"@) is Some { look(m, "2"@) } else if look(m, "3"@) is Some { look(m, "3"@) } else { look(m, "4"@) } }
fn vx_same(s: &String) -> (r: String)
    ensures r@ == s@,
{ s.clone() }
//@ init mesdoc/rules/attr.rs init attr_value
//@ prop C10
//@ rule orelse
//@ rule optmap
//@ sig
fn attr_value(value_data: &MatchedData) -> (r: Option<String>)
//@ header
    ensures (match r { Some(s) => Some(s@), None => None::<Seq<char>> }) == wanted(value_data),
//@ init mesdoc/rules/attr.rs init match_mode
//@ prop C10
//@ sig
fn match_mode<'a>(value_data: &'a MatchedData, def_mode: &'a String) -> (r: &'a String)
//@ header
    ensures r@ == (match look(value_data, "1"@) { Some(s) => s, None => def_mode@ }),
//@ emit
}
fn main() {}
