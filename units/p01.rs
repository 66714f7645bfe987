//@include core.rs
//@include text.rs
//@type str = String
//@extract src/shared/sse_parser.rs struct:SseEvent struct:EventBuilder struct:SseParser

//@include sse_spec.rs
// ---------------------------------------------------------------- abstraction
impl SseEvent {
    pub open spec fn ev(&self) -> Ev { Ev { id: ov(self.id), event: ov(self.event), data: self.data@, retry: self.retry } }
}
pub open spec fn evs(v: Seq<SseEvent>) -> Seq<Ev> { v.map_values(|e: SseEvent| e.ev()) }
impl SseParser {
    pub open spec fn inv(&self) -> bool {
        !self.buffer@.contains(10u8) && self.winv()
    }
    /// Abstract state with the given events already emitted.
    pub open spec fn stx(&self, buf: Seq<u8>, out: Seq<Ev>) -> St {
        St { buf, event: ov(self.current_event.event), data: self.current_event.data@, retry: self.current_event.retry,
             last: ov(self.last_event_id), out }
    }
    pub open spec fn st(&self) -> St { self.stx(self.buffer@, Seq::empty()) }
    pub open spec fn winv(&self) -> bool {
        &&& self.current_event.id is Some ==> ov(self.current_event.id) == ov(self.last_event_id)
        &&& self.current_event.data@.len() > 0 ==> self.current_event.data@.last() == 10u8
    }
}
//@fn SseParser::new ret=r
    ensures r.inv(), r.st() == st_init()
//@end
//@fn EventBuilder::new ret=r
    ensures r.id is None, r.event is None, r.data@ == Seq::<u8>::empty(), r.retry is None
//@end
//@fn SseParser::last_event_id ret=r
    ensures match r { Some(x) => ov(self.last_event_id) == Some(x@), None => self.last_event_id is None }
//@end
//@fn SseParser::reset
    ensures final(self).inv(),
        final(self).st() == clear(St { buf: Seq::empty(), ..old(self).st() }),
//@tail
    assert(!Seq::<u8>::empty().contains(10u8));
//@end
//@fn SseParser::dispatch_event ret=r
    requires old(self).winv()
    ensures
        final(self).winv(),
        final(self).buffer@ == old(self).buffer@,
        forall|out: Seq<Ev>| final(self).stx(Seq::empty(), match r { Some(e) => out.push(e.ev()), None => out })
            == #[trigger] on_line(old(self).stx(Seq::empty(), out), Seq::empty()),
//@end
//@fn SseParser::process_line ret=r
    requires old(self).winv()
    ensures
        final(self).winv(),
        final(self).buffer@ == old(self).buffer@,
        forall|out: Seq<Ev>| final(self).stx(Seq::empty(), match r { Some(e) => out.push(e.ev()), None => out })
            == #[trigger] on_line(old(self).stx(Seq::empty(), out), line@),
//@start
    assert(line@.len() == 0 ==> line@ =~= Seq::empty());
//@end
//@fn SseParser::feed ret=r
    requires old(self).inv()
    ensures
        final(self).inv(),
        evs(r@) == run(old(self).st(), data@).out,
        final(self).st() == (St { out: Seq::empty(), ..run(old(self).st(), data@) }),
//@loop 0
    invariant
        self.winv(),
        run(self.stx(Seq::empty(), evs(events@)), self.buffer@) == run(old(self).st(), data@),
    ensures !self.buffer@.contains(10u8)
    decreases self.buffer@.len()
//@start
    proof { lemma_run_line(old(self).stx(Seq::empty(), Seq::empty()), old(self).buffer@);
        lemma_run_app(old(self).stx(Seq::empty(), Seq::empty()), old(self).buffer@, data@);
        assert(Seq::<u8>::empty() + old(self).buffer@ =~= old(self).buffer@);
        assert(evs(Seq::empty()) =~= Seq::<Ev>::empty()); }
//@loopstart 0
    let ghost __b = self.buffer@; let ghost __s = self.stx(Seq::empty(), evs(events@)); let ghost __e = events@;
    proof {
        let i = index_of(__b, 10)->0;
        lemma_run_full_line(__s, __b.subrange(0, i), __b.subrange(i + 1, __b.len() as int));
        assert(__b =~= __b.subrange(0, i) + seq![10u8] + __b.subrange(i + 1, __b.len() as int));
        assert(__s.buf + __b.subrange(0, i) =~= __b.subrange(0, i));
    }
//@loopend 0
    proof {
        if events@.len() > __e.len() { assert(evs(events@) =~= evs(__e).push(events@.last().ev())); }
    }
//@tail
    proof {
        lemma_run_line(self.stx(Seq::empty(), evs(events@)), self.buffer@);
        assert(Seq::<u8>::empty() + self.buffer@ =~= self.buffer@);
    }
//@end
//@extract src/shared/sse_parser.rs impl:EventBuilder::{new} impl:SseParser::{new,feed,process_line,dispatch_event,last_event_id,reset}
