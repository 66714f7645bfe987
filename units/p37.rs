//@include core.rs
//@include text.rs
//@type str = String
//@type Path = String
//@type std::path::PathBuf = String
//@include errctor.rs
//@include json.rs
//@include coll.rs
//@include uuid.rs
//@call uuid::Uuid::new_v4 = Uuid::new_v4
//@call Path::new = v_pathof
//@call std::fs::read_dir = v_list
//@expr std::path::MAIN_SEPARATOR => '/'
//@method flatten = v_readable
//@method to_path_buf = v_owned
//@method to_string_lossy = v_owned
//@method parent = v_parent
//@method extension = v_extension
//@method join = v_join
//@method is_absolute = v_is_absolute
pub use core::cmp::Ordering;
//@extract src/types/completable.rs enum:CompletionProvider struct:CompletionConfig struct:CompletableArgument struct:CompletionRequest struct:CompletionResponse struct:CompletionItem struct:StaticCompletionProvider struct:FileCompletionProvider struct:CompletableBuilder impl:StaticCompletionProvider::{new,from_strings,complete} impl:FileCompletionProvider::{new,with_base_dir,with_extensions,complete,default@Default=default} impl:CompletableBuilder::{new,description,required,static_completions,file_completions,build} fn:completable
//@extract src/types/elicitation.rs enum:InputType +derive=PartialEq,Eq,Structural
//@extract src/types/elicitation.rs struct:SelectOption struct:InputValidation struct:ElicitInputRequest struct:ElicitInputBuilder impl:ElicitInputBuilder::{new,id,description,default,required,min,max,pattern,options,metadata,build} fn:elicit_text fn:elicit_boolean fn:elicit_select fn:elicit_number fn:elicit_file
//@extract src/types/capabilities.rs struct:ToolCapabilities struct:PromptCapabilities struct:ResourceCapabilities struct:LoggingCapabilities struct:SamplingCapabilities struct:RootsCapabilities struct:CompletionCapabilities struct:ServerCapabilities struct:ClientCapabilities impl:ClientCapabilities::{minimal,full,supports_tools,supports_prompts,supports_resources,supports_sampling} impl:ServerCapabilities::{minimal,tools_only,prompts_only,resources_only,provides_tools,provides_prompts,provides_resources}
// ---- the file system and paths (external): what a directory lists is unknown, but one listing per call ----
#[verifier::external_body]
pub struct OsName { x: u8 }
impl OsName {
    /// the name as text; none when it is not UTF-8
    pub uninterp spec fn text(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&String>) ensures match r { Some(s) => self.text() == Some(s@), None => self.text() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct FileType { x: u8 }
impl FileType {
    pub uninterp spec fn dir(&self) -> bool;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
}
#[verifier::external_body]
pub struct FsError { x: u8 }
#[verifier::external_body]
pub struct DirEntry { x: u8 }
impl DirEntry {
    pub uninterp spec fn name(&self) -> Option<Seq<u8>>;
    /// its type is known, and it is a directory
    pub uninterp spec fn dir(&self) -> bool;
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsName) ensures r.text() == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self) -> (r: core::result::Result<FileType, FsError>) ensures match r { Ok(t) => t.dir() == self.dir(), Err(_) => !self.dir() } { unimplemented!() }
}
/// the entries of a directory that can be read, as they are listed; none when the directory cannot be listed
pub uninterp spec fn listing(path: Seq<u8>) -> Option<Seq<DirEntry>>;
#[verifier::external_body]
pub struct ReadDir { x: u8 }
impl ReadDir {
    pub uninterp spec fn all(&self) -> Seq<DirEntry>;
    #[verifier::external_body]
    pub fn v_readable(self) -> (r: VInto<DirEntry>) ensures r.wf(), r.pos() == 0, r.seq() == self.all() { unimplemented!() }
}
#[verifier::external_body]
pub fn v_list(p: &String) -> (r: core::result::Result<ReadDir, FsError>) ensures match r { Ok(d) => listing(p@) == Some(d.all()), Err(_) => listing(p@) is None } { unimplemented!() }
pub uninterp spec fn path_parent(p: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn path_name(p: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn path_ext(p: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn path_join(a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn path_absolute(p: Seq<u8>) -> bool;
pub fn v_pathof(s: &String) -> (r: &String) ensures r@ == s@ { s }
/// paths made of text are text
impl String {
    #[verifier::external_body]
    pub fn v_parent(&self) -> (r: Option<&String>) ensures match r { Some(p) => path_parent(self@) == Some(p@), None => path_parent(self@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsName>) ensures match r { Some(n) => n.text() == path_name(self@) && path_name(self@) is Some, None => path_name(self@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extension(&self) -> (r: Option<&OsName>) ensures match r { Some(n) => n.text() == path_ext(self@) && path_ext(self@) is Some, None => path_ext(self@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_join(&self, o: &String) -> (r: String) ensures r@ == path_join(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_absolute(&self) -> (r: bool) ensures r == path_absolute(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp(&self, o: &String) -> (r: Ordering) ensures r == text_cmp(self@, o@) { unimplemented!() }
}
/// the order of texts: by their bytes
pub open spec fn text_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { text_cmp(a.drop_first(), b.drop_first()) }
}
/// the comparison does not want b before a
pub open spec fn kept<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && o != Ordering::Greater }
pub trait VSortBy<T>: Sized {
    spec fn vz(&self) -> Seq<T>;
    fn v_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|x: T, y: T| #[trigger] f.requires((&x, &y)),
        ensures
            final(self).vz().to_multiset() == old(self).vz().to_multiset(),
            forall|i: int, j: int| 0 <= i < j < final(self).vz().len() ==> kept(f, #[trigger] final(self).vz()[i], #[trigger] final(self).vz()[j]);
}
impl<T> VSortBy<T> for Vec<T> {
    open spec fn vz(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
}
impl Serialize for Vec<String> { open spec fn ser(&self) -> Value { ser_of(*self) } }
// ---- what a provider offers ----
pub open spec fn offered(i: CompletionItem, partial: Seq<u8>) -> bool { is_prefix(partial, i.value@) || (i.label is Some && is_prefix(partial, i.label->0@)) }
pub open spec fn bare(i: CompletionItem, v: Seq<u8>) -> bool { i.value@ == v && i.label is None && i.description is None && i.icon is None && i.metadata@ == Map::<String, Value>::empty() }
pub open spec fn whole(r: CompletionResponse) -> bool { !r.has_more && r.continuation_token is None }
pub open spec fn ends_in_slash(p: Seq<u8>) -> bool { p.len() > 0 && p.last() == 47 }
/// the directory a typed path names, as typed, and what the names in it must start with
pub open spec fn typed_dir(p: Seq<u8>) -> Seq<u8> { if ends_in_slash(p) { p } else { match path_parent(p) { Some(d) => d, None => S(".") } } }
pub open spec fn typed_name(p: Seq<u8>) -> Seq<u8> { if ends_in_slash(p) { Seq::empty() } else { match path_name(p) { Some(n) => n, None => Seq::empty() } } }
pub open spec fn searched(f: FileCompletionProvider, p: Seq<u8>) -> Seq<u8> {
    if path_absolute(typed_dir(p)) || f.base_dir is None { typed_dir(p) } else { path_join(f.base_dir->0@, typed_dir(p)) }
}
pub open spec fn ext_ok(exts: Option<Vec<String>>, n: Seq<u8>) -> bool {
    exts is None || (path_ext(n) is Some && exists|i: int| 0 <= i < exts->0@.len() && (#[trigger] exts->0@[i])@ == path_ext(n)->0)
}
pub open spec fn listed(f: FileCompletionProvider, p: Seq<u8>, e: DirEntry) -> bool {
    e.name() is Some && is_prefix(typed_name(p), e.name()->0) && (e.dir() || ext_ok(f.extensions, e.name()->0))
}
/// what stands for an entry: the path with the name completed, labelled by the name
pub open spec fn stands_for(i: CompletionItem, p: Seq<u8>, e: DirEntry) -> bool {
    i.value@ == (if p.len() == 0 { e.name()->0 } else { path_join(typed_dir(p), e.name()->0) })
    && i.label is Some && i.label->0@ == e.name()->0
    && i.description is Some && i.description->0@ == (if e.dir() { S("Directory") } else { S("File") })
    && i.icon is Some && i.icon->0@ == (if e.dir() { S("📁") } else { S("📄") })
    && i.metadata@ == Map::<String, Value>::empty()
}
pub open spec fn stand_for(x: Seq<CompletionItem>, p: Seq<u8>, es: Seq<DirEntry>) -> bool { x.len() == es.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] stands_for(x[i], p, es[i]) }
pub open spec fn by_value(x: Seq<CompletionItem>) -> bool { forall|i: int, j: int| 0 <= i < j < x.len() ==> text_cmp((#[trigger] x[i]).value@, (#[trigger] x[j]).value@) != Ordering::Greater }
pub open spec fn found(f: FileCompletionProvider, p: Seq<u8>) -> Seq<DirEntry> {
    match listing(searched(f, p)) { Some(es) => es.filter(|e: DirEntry| listed(f, p, e)), None => Seq::empty() }
}
pub open spec fn shown(r: Seq<CompletionItem>, p: Seq<u8>, es: Seq<DirEntry>) -> bool {
    by_value(r) && exists|x: Seq<CompletionItem>| #[trigger] stand_for(x, p, es) && x.to_multiset() == r.to_multiset()
}
pub proof fn lemma_filter_step<T>(s: Seq<T>, n: int, f: spec_fn(T) -> bool)
    requires 0 <= n < s.len()
    ensures s.take(n + 1).filter(f) == (if f(s[n]) { s.take(n).filter(f).push(s[n]) } else { s.take(n).filter(f) })
{
    reveal(Seq::filter);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}
//@fn StaticCompletionProvider::new ret=r
    ensures r.items == items
//@end
//@fn StaticCompletionProvider::from_strings ret=r
    ensures r.items@.len() == values@.len(), forall|i: int| 0 <= i < values@.len() ==> bare(#[trigger] r.items@[i], values@[i]@)
//@loop 0
    invariant __it0.wf(), __it0.seq() == values@, __out0@.len() == __it0.pos(), forall|i: int| 0 <= i < __out0@.len() ==> bare(#[trigger] __out0@[i], values@[i]@)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn StaticCompletionProvider::complete ret=r
    ensures r is Ok, whole(r->Ok_0), r->Ok_0.completions@ == self.items@.filter(|i: CompletionItem| offered(i, request.partial@))
//@start
    let ghost f = |i: CompletionItem| offered(i, request.partial@);
    proof { reveal(Seq::filter); assert(self.items@.take(0) =~= Seq::empty()); assert(self.items@.take(self.items@.len() as int) =~= self.items@); }
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.items@, __out0@ == self.items@.take(__it0.pos()).filter(f), f == (|i: CompletionItem| offered(i, request.partial@)), self.items@.take(self.items@.len() as int) == self.items@
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { lemma_filter_step(self.items@, __it0.pos() - 1, f); }
//@end
//@fn FileCompletionProvider::new ret=r
    ensures r.base_dir is None, r.extensions is None
//@end
//@fn FileCompletionProvider::default ret=r
    ensures r.base_dir is None, r.extensions is None
//@end
//@fn FileCompletionProvider::with_base_dir ret=r
    ensures r == (FileCompletionProvider { base_dir: Some(dir), ..self })
//@end
//@fn FileCompletionProvider::with_extensions ret=r
    ensures r == (FileCompletionProvider { extensions: Some(extensions), ..self })
//@end
//@fn FileCompletionProvider::complete ret=r
    ensures r is Ok, whole(r->Ok_0), shown(r->Ok_0.completions@, request.partial@, found(*self, request.partial@))
//@start
    let ghost p = request.partial@;
    let ghost f = |e: DirEntry| listed(*self, p, e);
    let ghost mut es = Seq::<DirEntry>::empty(); let ghost mut pre = Seq::<CompletionItem>::empty();
    proof { reveal(Seq::filter); assert(forall|s: Seq<DirEntry>| #[trigger] s.take(0) =~= Seq::empty()); }
//@loop 0
    invariant
        __it0.wf(), listing(searched(*self, p)) == Some(__it0.seq()), p == request.partial@, f == (|e: DirEntry| listed(*self, p, e)),
        dir_path@ == typed_dir(p), file_prefix@ == typed_name(p),
        stand_for(completions@, p, __it0.seq().take(__it0.pos()).filter(f)),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { lemma_filter_step(__it0.seq(), __it0.pos() - 1, f); }
//@loop 1
    invariant_except_break !__out1, forall|i: int| 0 <= i < __it1.pos() ==> !((#[trigger] exts@[i])@ == e@)
    invariant __it1.wf(), __it1.seq() == exts@
    ensures __out1 == exists|i: int| 0 <= i < exts@.len() && ((#[trigger] exts@[i])@ == e@)
    decreases __it1.seq().len() - __it1.pos()
//@afterloop 0
    proof { assert(__it0.seq().take(__it0.pos()) =~= __it0.seq()); }
//@before sort_by#0
    proof { pre = completions@; assert(stand_for(pre, p, found(*self, p))); }
//@after sort_by#0
    proof {
        assert(stand_for(pre, p, found(*self, p)));
        assert(completions@.to_multiset() == pre.to_multiset());
        assert(by_value(completions@)) by {
            assert forall|i: int, j: int| 0 <= i < j < completions@.len() implies text_cmp((#[trigger] completions@[i]).value@, (#[trigger] completions@[j]).value@) != Ordering::Greater by { assert(completions.vz()[i] == completions@[i]); assert(completions.vz()[j] == completions@[j]); }
        }
        assert(shown(completions@, p, found(*self, p)));
    }
//@closure 0
    |a: &CompletionItem, b: &CompletionItem| -> (o: Ordering) ensures o == text_cmp(a.value@, b.value@)
//@end
// ---- arguments ----
//@fn CompletableBuilder::new ret=r dropgenerics
//@param name: impl VIntoString
    ensures r.name@ == name.txt(), r.description is None, !r.required, r.completion is None
//@end
//@fn completable ret=r dropgenerics
//@param name: impl VIntoString
    ensures r.name@ == name.txt(), r.description is None, !r.required, r.completion is None
//@end
//@fn CompletableBuilder::description ret=r dropgenerics
//@param desc: impl VIntoString
    ensures r.description is Some, r.description->0@ == desc.txt(), r == (CompletableBuilder { description: r.description, ..self })
//@end
//@fn CompletableBuilder::required ret=r
    ensures r == (CompletableBuilder { required: true, ..self })
//@end
//@fn CompletableBuilder::static_completions ret=r
    ensures r == (CompletableBuilder { completion: r.completion, ..self }), r.completion is Some, r.completion->0.provider is Static,
        exists|k: String| k@ == S("values") && r.completion->0.config@ == Map::<String, Value>::empty().insert(k, ser_of(values))
//@end
//@fn CompletableBuilder::file_completions ret=r
    ensures r == (CompletableBuilder { completion: r.completion, ..self }), r.completion is Some, r.completion->0.provider is File, r.completion->0.config@ == Map::<String, Value>::empty()
//@end
//@fn CompletableBuilder::build ret=r
    ensures r.name == self.name, r.description == self.description, r.required == self.required, r.completion == self.completion
//@end
// ---- questions ----
pub open spec fn no_rule() -> InputValidation { InputValidation { required: false, min: None, max: None, pattern: None, options: None, message: None } }
/// the rules set so far
pub open spec fn rules(b: ElicitInputBuilder) -> InputValidation { match b.validation { Some(v) => v, None => no_rule() } }
pub open spec fn ruled(b: ElicitInputBuilder, v: InputValidation) -> ElicitInputBuilder { ElicitInputBuilder { validation: Some(v), ..b } }
pub open spec fn plain(b: ElicitInputBuilder, t: InputType, prompt: Seq<u8>) -> bool {
    b.input_type == t && b.prompt@ == prompt && b.description is None && b.default is None && b.metadata@ == Map::<String, Value>::empty() && canonical(b.elicitation_id@)
    && exists|u: Uuid| #[trigger] u.random() && u.text() == b.elicitation_id@
}
//@fn ElicitInputBuilder::new ret=r dropgenerics
//@param prompt: impl VIntoString
    ensures plain(r, input_type, prompt.txt()), r.validation is None
//@end
//@fn ElicitInputBuilder::id ret=r dropgenerics
//@param id: impl VIntoString
    ensures r.elicitation_id@ == id.txt(), r == (ElicitInputBuilder { elicitation_id: r.elicitation_id, ..self })
//@end
//@fn ElicitInputBuilder::description ret=r dropgenerics
//@param desc: impl VIntoString
    ensures r.description is Some, r.description->0@ == desc.txt(), r == (ElicitInputBuilder { description: r.description, ..self })
//@end
//@fn ElicitInputBuilder::default ret=r dropgenerics
//@param value: Value
    ensures r == (ElicitInputBuilder { default: Some(value), ..self })
//@end
//@fn ElicitInputBuilder::required ret=r
    ensures r == ruled(self, InputValidation { required: true, ..rules(self) })
//@end
//@fn ElicitInputBuilder::min ret=r
    ensures r == ruled(self, InputValidation { min: Some(min), ..rules(self) })
//@end
//@fn ElicitInputBuilder::max ret=r
    ensures r == ruled(self, InputValidation { max: Some(max), ..rules(self) })
//@end
//@fn ElicitInputBuilder::pattern ret=r dropgenerics
//@param pattern: impl VIntoString
    ensures r.validation is Some, r.validation->0.pattern is Some, r.validation->0.pattern->0@ == pattern.txt(), r == ruled(self, InputValidation { pattern: r.validation->0.pattern, ..rules(self) })
//@end
//@fn ElicitInputBuilder::options ret=r
    ensures r == ruled(self, InputValidation { options: Some(options), ..rules(self) })
//@end
//@fn ElicitInputBuilder::metadata ret=r dropgenerics
//@param key: impl VIntoString
//@param value: Value
    ensures exists|k: String| k@ == key.txt() && #[trigger] self.metadata@.insert(k, value) == r.metadata@, r == (ElicitInputBuilder { metadata: r.metadata, ..self })
//@end
//@fn ElicitInputBuilder::build ret=r
    ensures r.elicitation_id == self.elicitation_id, r.input_type == self.input_type, r.prompt == self.prompt, r.description == self.description, r.default == self.default, r.validation == self.validation, r.metadata == self.metadata
//@end
//@fn elicit_text ret=r dropgenerics
//@param prompt: impl VIntoString
    ensures plain(r, InputType::Text, prompt.txt()), r.validation is None
//@end
//@fn elicit_boolean ret=r dropgenerics
//@param prompt: impl VIntoString
    ensures plain(r, InputType::Boolean, prompt.txt()), r.validation is None
//@end
//@fn elicit_number ret=r dropgenerics
//@param prompt: impl VIntoString
    ensures plain(r, InputType::Number, prompt.txt()), r.validation is None
//@end
//@fn elicit_file ret=r dropgenerics
//@param prompt: impl VIntoString
    ensures plain(r, InputType::FilePath, prompt.txt()), r.validation is None
//@end
//@fn elicit_select ret=r dropgenerics
//@param prompt: impl VIntoString
    ensures plain(r, InputType::Select, prompt.txt()), r.validation == Some(InputValidation { options: Some(options), ..no_rule() })
//@end
// ---- capabilities ----
//@fn ClientCapabilities::supports_tools ret=r
    ensures r == self.tools is Some
//@end
//@fn ClientCapabilities::supports_prompts ret=r
    ensures r == self.prompts is Some
//@end
//@fn ClientCapabilities::supports_resources ret=r
    ensures r == self.resources is Some
//@end
//@fn ClientCapabilities::supports_sampling ret=r
    ensures r == self.sampling is Some
//@end
//@fn ServerCapabilities::provides_tools ret=r
    ensures r == self.tools is Some
//@end
//@fn ServerCapabilities::provides_prompts ret=r
    ensures r == self.prompts is Some
//@end
//@fn ServerCapabilities::provides_resources ret=r
    ensures r == self.resources is Some
//@end
pub open spec fn nothing(c: ServerCapabilities) -> bool { c.tools is None && c.prompts is None && c.resources is None && c.logging is None && c.completions is None && c.sampling is None && c.experimental is None }
impl ServerCapabilities {
    /// #[derive(Default)]
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures nothing(r) { unimplemented!() }
}
//@fn ServerCapabilities::tools_only ret=r
    ensures r.tools == Some(ToolCapabilities { list_changed: Some(true) }), nothing(ServerCapabilities { tools: None, ..r })
//@end
//@fn ServerCapabilities::prompts_only ret=r
    ensures r.prompts == Some(PromptCapabilities { list_changed: Some(true) }), nothing(ServerCapabilities { prompts: None, ..r })
//@end
//@fn ServerCapabilities::resources_only ret=r
    ensures r.resources == Some(ResourceCapabilities { subscribe: Some(true), list_changed: Some(true) }), nothing(ServerCapabilities { resources: None, ..r })
//@end
pub open spec fn nothing_c(c: ClientCapabilities) -> bool { c.tools is None && c.prompts is None && c.resources is None && c.logging is None && c.sampling is None && c.roots is None && c.experimental is None }
impl ClientCapabilities {
    /// #[derive(Default)]
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures nothing_c(r) { unimplemented!() }
}
impl SamplingCapabilities {
    /// #[derive(Default)]
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.models is None { unimplemented!() }
}
//@fn ClientCapabilities::minimal ret=r
    ensures nothing_c(r)
//@end
//@fn ServerCapabilities::minimal ret=r
    ensures nothing(r)
//@end
//@fn ClientCapabilities::full ret=r
    ensures r.tools == Some(ToolCapabilities { list_changed: Some(true) }), r.prompts == Some(PromptCapabilities { list_changed: Some(true) }), r.resources == Some(ResourceCapabilities { subscribe: Some(true), list_changed: Some(true) }),
        r.logging is Some && r.logging->0.levels is Some && r.logging->0.levels->0@.len() == 4 && r.logging->0.levels->0@[0]@ == S("debug") && r.logging->0.levels->0@[1]@ == S("info") && r.logging->0.levels->0@[2]@ == S("warning") && r.logging->0.levels->0@[3]@ == S("error"),
        r.sampling is Some && r.sampling->0.models is None, r.roots == Some(RootsCapabilities { list_changed: true }), r.experimental is None
//@end
