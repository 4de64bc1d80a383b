// C17: a sideband session drives its decoders as the interface promises.  Scripted decoders
// whose every callback is checked online; contexts against reference counts; resources at the end.
#define AM_MAIN
#include "allocmon.hpp"
#include <memory>
extern "C" {
#include "intel-pt.h"
#include "libipt-sb.h"
}
#include <cstddef>

enum Life { WAITING, ACTIVE, RETIRED, REMOVED };
struct Dec {
	int id = 0; bool primary = false;
	bool hfetch = true, happly = true, hprint = true, hdtor = true;
	std::vector<uint64_t> recs; size_t pos = 0;	// next record to fetch
	int end_err = -pte_eos; bool stop_after = false;
	size_t fail_apply = ~0ull; int apply_err = 0; int apply_err_round = 1;
	size_t fail_print = ~0ull; int print_err = 0;
	size_t nrec = 0;	// index of the current record
	uint64_t tsc = 0; Life life = WAITING; int dtors = 0;
	bool presented = false, after_dump = false;
	int set_image = 0;	// percent
};
static std::vector<std::unique_ptr<Dec>> D;
static Rng *R;
static struct pt_sb_session *S;
static FILE *NUL;
static std::vector<struct pt_image *> imgs;
static std::string bad, badkey, trace;
// What is going on.
enum Op { NONE, INIT, EVENT, DUMP, FREE };
static Op op; static FILE *stream; static uint32_t pflags;
static struct pt_event ev; static struct pt_image **pimage, *expimage; static uint64_t dumptsc;
static Dec *cur; static int stage;	// 0 none, 1 printed, 2 applied
static bool round2; static size_t calls;

static void fail(const char *key, const std::string &m)
{
	if (bad.empty()) { bad = m; badkey = key; }
}
#define CK(c, key, ...) do { if (!(c)) fail(key, strf(__VA_ARGS__)); } while (0)

static uint64_t limit() { return op == DUMP ? dumptsc : ev.tsc; }
static bool has_print_stage() { return op == DUMP || stream; }
// Drop the decoders that fail without any callback, as far as they precede @t.
static void purge(uint64_t t)
{
	for (auto &d : D)
		if (d->life == ACTIVE && d.get() != cur && d->tsc <= t && d->tsc <= limit()) {
			bool silent = has_print_stage() ? !d->hprint : !d->happly;
			if (silent) { d->life = REMOVED; M.count("silent_removals"); }
		}
}
static Dec *min_active()
{
	Dec *m = nullptr;
	for (auto &d : D) if (d->life == ACTIVE && d.get() != cur && (!m || d->tsc < m->tsc)) m = d.get();
	return m;
}
// @d starts its turn in the first round.
static void turn(Dec *d, const char *what)
{
	CK(!cur, "interleaved", "%s of decoder %d while decoder %d is in progress", what, d->id, cur ? cur->id : -1);
	purge(d->tsc);
	Dec *m = min_active();
	CK(m && m->tsc >= d->tsc, "order", "%s of decoder %d (record time %llu) before decoder %d (record time %llu)", what, d->id, (unsigned long long) d->tsc,
	   m ? m->id : -1, m ? (unsigned long long) m->tsc : 0);
	CK(d->tsc <= limit(), "early", "%s of decoder %d: record time %llu beyond %llu", what, d->id, (unsigned long long) d->tsc, (unsigned long long) limit());
	cur = d; stage = 0;
}
static void common(Dec *d, const char *what, struct pt_sb_session *s)
{
	calls++;
	CK(s == S, "session", "%s with a wrong session", what);
	CK(!d->dtors, "after-dtor", "%s of decoder %d after its destruction", what, d->id);
	CK(d->life != REMOVED, "removed", "%s of decoder %d after it was removed", what, d->id);
	if (trace.size() < 3000) trace += strf("%s %d tsc %llu\n", what, d->id, (unsigned long long) d->tsc);
}
static int do_fetch(Dec *d, uint64_t *tsc)
{
	if (d->pos < d->recs.size()) {
		d->nrec = d->pos;
		*tsc = d->tsc = d->recs[d->pos++];
		return 0;
	}
	// A refused fetch may still have written the time.
	if (R->chance(30)) *tsc = R->wide(64);
	return d->end_err;
}
static int cb_fetch(struct pt_sb_session *s, uint64_t *tsc, void *priv)
{
	AmOff off; Dec *d = (Dec *) priv;
	common(d, "fetch", s);
	M.count("fetches");
	if (op == INIT) {
		CK(d->life == WAITING, "init-fetch", "decoder %d initialized again", d->id);
		int e = do_fetch(d, tsc);
		d->life = e < 0 ? REMOVED : ACTIVE;
		if (e < 0) M.count("init_failures");
		return e;
	}
	CK(op == EVENT || op == DUMP, "fetch-when", "fetch of decoder %d in no event", d->id);
	CK(cur == d && stage == (op == DUMP ? 1 : 2), "fetch-stage", "fetch of decoder %d before its record was %s", d->id, op == DUMP ? "printed" : "applied");
	cur = nullptr;
	int e = do_fetch(d, tsc);
	if (e == -pte_eos) { d->life = RETIRED; d->after_dump = op == DUMP; M.count("retired"); }
	else if (e < 0) { d->life = REMOVED; M.count("fetch_failures"); }
	return e;
}
static int cb_print(struct pt_sb_session *s, FILE *f, uint32_t flags, void *priv)
{
	AmOff off; Dec *d = (Dec *) priv;
	common(d, "print", s);
	M.count("prints");
	CK(has_print_stage(), "print-when", "print without being asked");
	CK(!round2, "print-round2", "print after the first round");
	CK(f == stream && flags == pflags, "print-args", "wrong stream or flags");
	CK(d->life == ACTIVE, "print-life", "print of an inactive decoder %d", d->id);
	turn(d, "print");
	stage = 1;
	if (d->nrec == d->fail_print) { d->life = REMOVED; cur = nullptr; M.count("print_failures"); return d->print_err; }
	if (op == EVENT && !d->happly) { d->life = REMOVED; cur = nullptr; }
	return 0;
}
static int cb_apply(struct pt_sb_session *s, struct pt_image **image, const struct pt_event *e, void *priv)
{
	AmOff off; Dec *d = (Dec *) priv;
	common(d, "apply", s);
	CK(op == EVENT, "apply-when", "apply outside an event");
	CK(!memcmp(e, &ev, sizeof ev), "event-content", "decoder %d sees another event: %s instead of %s", d->id, hexs(e, sizeof ev).c_str(), hexs(&ev, sizeof ev).c_str());
	CK(image == (d->primary ? pimage : nullptr), "image-arg", "decoder %d (%s) is given image %p instead of %p", d->id, d->primary ? "primary" : "secondary", (void *) image, (void *) pimage);
	bool first = !round2 && (cur == d && stage == 1 || !cur && !has_print_stage() && d->life == ACTIVE && d->tsc <= ev.tsc);
	if (first) {
		if (!cur) turn(d, "apply");
		stage = 2;
		M.count("applied");
		if (d->nrec == d->fail_apply && d->apply_err_round == 1) { d->life = REMOVED; cur = nullptr; M.count("apply_failures"); return d->apply_err; }
	} else {
		CK(!cur, "round2-early", "decoder %d presented while decoder %d is in progress", d->id, cur ? cur->id : -1);
		purge(~0ull);
		Dec *m = min_active();
		CK(!m || m->tsc > ev.tsc, "round2-due", "decoder %d presented the event although decoder %d has a due record (%llu <= %llu)", d->id, m ? m->id : -1,
		   m ? (unsigned long long) m->tsc : 0, (unsigned long long) ev.tsc);
		round2 = true;
		CK(d->life == ACTIVE || d->life == RETIRED, "round2-life", "decoder %d presented", d->id);
		CK(!d->presented, "round2-twice", "decoder %d presented the same event twice", d->id);
		d->presented = true;
		M.count(d->life == RETIRED ? "observed_retired" : "observed_active");
		if (d->nrec == d->fail_apply && d->apply_err_round == 2) { d->life = REMOVED; M.count("observe_failures"); return d->apply_err; }
	}
	if (image && R->chance((unsigned) d->set_image)) { *image = expimage = imgs[R->below(imgs.size())]; M.count("image_changes"); }
	return R->chance(10) ? (int) R->range(1, 5) : 0;
}
static void cb_dtor(void *priv)
{
	AmOff off; Dec *d = (Dec *) priv;
	d->dtors++;
	CK(d->dtors == 1, "dtor-twice", "decoder %d destroyed twice", d->id);
	CK(op == FREE || d->life == REMOVED || op != NONE && cur == d, "dtor-early", "decoder %d destroyed while in use", d->id);
}
static int sw_err; static const struct pt_sb_context *sw_ctx; static void *sw_priv; static int sw_calls;
static int cb_switch(const struct pt_sb_context *c, void *p) { sw_ctx = c; sw_priv = p; sw_calls++; return sw_err; }
static int cb_switch2(const struct pt_sb_context *c, void *p) { return cb_switch(c, p); }
static int cb_err(int, const char *, uint64_t, void *) { return 0; }
static int cb_err2(int, const char *, uint64_t, void *) { return 0; }

void harness_init()
{
	NUL = fopen("/dev/null", "w");
	for (int i = 0; i < 3; ++i) imgs.push_back(pt_image_alloc("x"));
}
void harness_fini() { for (auto i : imgs) pt_image_free(i); fclose(NUL); }

static uint64_t horizon;
static int rnderr(Rng &r) { static const int e[] = { -pte_nomem, -pte_bad_packet, -pte_invalid, -pte_bad_context, -pte_nosync, -pte_eos, -pte_internal, -200 }; return e[r.below(8)]; }

static void add_decoder(Rng &r)
{
	std::unique_ptr<Dec> d(new Dec);
	d->id = (int) D.size(); d->primary = r.chance(50);
	size_t n = r.chance(10) ? 0 : r.range(1, 12);
	uint64_t t = r.chance(60) ? r.below(horizon) : 0;
	for (size_t i = 0; i < n; ++i) {
		t += r.chance(40) ? 0 : r.below(horizon / 4 + 2);
		d->recs.push_back(r.chance(3) ? r.below(horizon) : r.chance(2) ? ~0ull - r.below(2) : t);
	}
	if (r.chance(20)) d->end_err = rnderr(r);
	if (r.chance(20) && n) { d->fail_apply = r.below(n); d->apply_err = rnderr(r); d->apply_err_round = 1 + (int) r.below(2); }
	if (r.chance(10) && n) { d->fail_print = r.below(n); d->print_err = rnderr(r); }
	if (r.chance(4)) d->hfetch = false;
	if (r.chance(4)) d->happly = false;
	if (r.chance(4)) d->hprint = false;
	if (r.chance(10)) d->hdtor = false;
	d->set_image = r.chance(50) ? 30 : 0;
	struct pt_sb_decoder_config c; memset(&c, 0, sizeof c);
	c.size = sizeof c; c.fetch = d->hfetch ? cb_fetch : nullptr; c.apply = d->happly ? cb_apply : nullptr;
	c.print = d->hprint ? cb_print : nullptr; c.dtor = d->hdtor ? cb_dtor : nullptr; c.priv = d.get(); c.primary = d->primary;
	M.note += strf("decoder %d %s recs", d->id, d->primary ? "primary" : "secondary");
	for (auto x : d->recs) M.note += strf(" %llu", (unsigned long long) x);
	M.note += strf(" end %d fail_apply %zd/%d round %d fail_print %zd cbs %d%d%d\n", d->end_err, (ssize_t) d->fail_apply, d->apply_err, d->apply_err_round, (ssize_t) d->fail_print, d->hfetch, d->happly, d->hprint);
	int e = L([&] { return pt_sb_alloc_decoder(S, &c); });
	CK(e == 0, "alloc", "pt_sb_alloc_decoder: %d", e);
	memset(&c, 0xee, sizeof c);
	D.push_back(std::move(d));
	M.count("decoders");
}

// Contexts.
struct Ctx { struct pt_sb_context *c; uint32_t pid; bool insess; unsigned refs; struct pt_image *image; };
static std::vector<Ctx> C;
static Ctx *by_pid(uint32_t pid) { for (auto &c : C) if (c.insess && c.pid == pid) return &c; return nullptr; }
static void drop_dead() { for (size_t i = 0; i < C.size();) if (!C[i].insess && !C[i].refs) C.erase(C.begin() + i); else ++i; }

static void ctx_op(Rng &r)
{
	uint32_t pid = r.chance(90) ? (uint32_t) r.below(6) : (uint32_t) r.wide(32);
	struct pt_sb_context *c = (struct pt_sb_context *) 8;
	M.count("context_ops");
	switch (r.below(9)) {
	case 0: case 1: {
		int e = L([&] { return pt_sb_get_context_by_pid(&c, S, pid); });
		CK(e == 0 && c, "ctx-get", "pt_sb_get_context_by_pid: %d", e);
		if (e < 0 || !c) return;
		Ctx *m = by_pid(pid);
		if (m) CK(m->c == c, "ctx-same", "another context for pid %u", pid);
		else {
			for (auto &o : C) CK(o.c != c, "ctx-alias", "context of pid %u is that of pid %u", pid, o.pid);
			struct pt_image *im = pt_sb_ctx_image(c);
			CK(im, "ctx-image", "context without image");
			for (auto &o : C) CK(o.image != im, "ctx-image-alias", "image shared between contexts");
			std::string want = strf("pid-%x", pid);
			CK(!im || pt_image_name(im) && want == pt_image_name(im), "ctx-name", "image name %s for pid %u", im && pt_image_name(im) ? pt_image_name(im) : "null", pid);
			C.push_back({ c, pid, true, 0, im });
			M.count("contexts");
		}
		break;
	}
	case 2: {
		int e = L([&] { return pt_sb_find_context_by_pid(&c, S, pid); });
		Ctx *m = by_pid(pid);
		CK(e == 0 && c == (m ? m->c : nullptr), "ctx-find", "pt_sb_find_context_by_pid(%u): %d, %p", pid, e, (void *) c);
		break;
	}
	case 3: case 4: {
		if (C.empty()) return;
		Ctx &m = C[r.below(C.size())];
		unsigned n = r.chance(2) ? 66000 : 1;
		for (unsigned i = 0; i < n; ++i) {
			int e = pt_sb_ctx_get(m.c);
			int want = m.refs + (m.insess ? 1 : 0) >= 65535 ? -pte_overflow : 0;
			CK(e == want, "ctx-ref", "pt_sb_ctx_get: %d instead of %d with %u references", e, want, m.refs);
			if (want) M.count("ref_overflows");
			if (e < 0) break;
			m.refs++;
		}
		break;
	}
	case 5: case 6: {
		if (C.empty()) return;
		Ctx &m = C[r.below(C.size())];
		unsigned n = r.chance(20) ? m.refs : m.refs ? 1 : 0;
		for (unsigned i = 0; i < n; ++i) {
			int e = L([&] { return pt_sb_ctx_put(m.c); });
			CK(e == 0, "ctx-put", "pt_sb_ctx_put: %d", e);
			m.refs--;
		}
		drop_dead();
		break;
	}
	case 7: {
		if (C.empty()) return;
		Ctx &m = C[r.below(C.size())];
		int e = L([&] { return pt_sb_remove_context(S, m.c); });
		CK(e == (m.insess ? 0 : -pte_nosync), "ctx-remove", "pt_sb_remove_context: %d", e);
		if (m.insess) M.count("contexts_removed");
		m.insess = false;
		drop_dead();
		break;
	}
	case 8: {
		if (C.empty()) return;
		Ctx &m = C[r.below(C.size())];
		CK(pt_sb_ctx_image(m.c) == m.image, "ctx-image-stable", "image of pid %u changed", m.pid);
		struct pt_image *cur = imgs[0], *was = cur; int x;
		bool two = r.chance(50), none = r.chance(30); int err = r.chance(30) ? rnderr(r) : r.chance(20) ? 3 : 0;
		pt_sb_notify_switch(S, none ? nullptr : two ? cb_switch2 : cb_switch, none ? nullptr : &x);
		sw_calls = 0; sw_err = err; sw_ctx = nullptr;
		int e = L([&] { return pt_sb_ctx_switch_to(&cur, S, m.c); });
		if (none) CK(e == 0 && cur == m.image, "switch", "pt_sb_ctx_switch_to: %d", e);
		else {
			CK(sw_calls == 1 && sw_ctx == m.c && sw_priv == &x, "switch-notify", "notifier called %d times with the wrong arguments", sw_calls);
			CK(e == (err < 0 ? err : 0), "switch-err", "pt_sb_ctx_switch_to: %d with notifier result %d", e, err);
			CK(cur == (err < 0 ? was : m.image), "switch-image", "wrong image after notifier result %d", err);
		}
		auto old = pt_sb_notify_switch(S, nullptr, nullptr);
		CK(old == (none ? nullptr : two ? cb_switch2 : cb_switch), "notify-old", "pt_sb_notify_switch returned the wrong notifier");
		pt_sb_notify_error(S, cb_err, nullptr);
		CK(pt_sb_notify_error(S, cb_err2, nullptr) == cb_err && pt_sb_notify_error(S, nullptr, nullptr) == cb_err2, "notify-err-old", "pt_sb_notify_error returned the wrong notifier");
		M.count("switches");
		break;
	}
	}
}

void run_case(Rng &r)
{
	R = &r; D.clear(); C.clear(); bad.clear(); trace.clear(); op = NONE; cur = nullptr; calls = 0;
	AM.forget();
	horizon = r.chance(30) ? 8 : r.chance(50) ? 100 : 1000000;
	struct pt_image_section_cache *isc = r.chance(50) ? pt_iscache_alloc(nullptr) : nullptr;
	S = L([&] { return pt_sb_alloc(isc); });
	CK(pt_sb_iscache(S) == isc, "iscache", "pt_sb_iscache"); 
	CK(pt_sb_kernel_image(S), "kernel", "no kernel image");
	size_t n = r.range(0, 6);
	for (size_t i = 0; i < n; ++i) add_decoder(r);
	uint64_t t = 0; size_t nev = r.range(1, 25);
	struct pt_image *image = imgs[0];
	uint64_t h = 0;
	for (size_t k = 0; k < nev && bad.empty(); ++k) {
		if (r.chance(10)) add_decoder(r);
		if (k == 0 || r.chance(15)) {
			op = INIT;
			M.note += "init\n";
			for (auto &d : D) if (d->life == WAITING && !d->hfetch) d->life = REMOVED;
			int e = L([&] { return pt_sb_init_decoders(S); });
			CK(e == 0, "init", "pt_sb_init_decoders: %d", e);
			for (auto &d : D) CK(d->life != WAITING, "init-missed", "decoder %d not initialized", d->id);
			op = NONE;
		}
		while (r.chance(30)) ctx_op(r);
		bool toobad = r.chance(3);
		t = r.chance(80) ? t + r.below(horizon / 3 + 2) : r.chance(80) ? r.below(horizon) : ~0ull;
		for (auto &d : D) d->presented = false;
		cur = nullptr; stage = 0; round2 = false; trace.clear();
		stream = r.chance(30) ? NUL : nullptr; pflags = (uint32_t) r.next();
		if (r.chance(8)) {
			op = DUMP; dumptsc = t; if (!stream) stream = NUL;
			M.note += strf("dump up to %llu\n", (unsigned long long) t);
			int e = L([&] { return pt_sb_dump(S, stream, pflags, t); });
			CK(e == 0, "dump", "pt_sb_dump: %d", e);
			CK(!cur, "dump-unfinished", "decoder %d printed and nothing fetched", cur ? cur->id : -1);
			purge(~0ull);
			Dec *m = min_active();
			CK(!m || m->tsc > t, "dump-due", "decoder %d not dumped (%llu <= %llu)", m ? m->id : -1, m ? (unsigned long long) m->tsc : 0, (unsigned long long) t);
			op = NONE;
			M.count("dumps");
			continue;
		}
		// A user's event of any size.
		size_t size = sizeof(struct pt_event);
		if (r.chance(30)) size = r.range(offsetof(struct pt_event, reserved), sizeof(struct pt_event) + 24);
		if (toobad) size = r.below(offsetof(struct pt_event, reserved));
		uint8_t *ub = (uint8_t *) __real_malloc(size ? size : 1);
		for (size_t i = 0; i < size; ++i) ub[i] = (uint8_t) r.next();
		struct pt_event full; memset(&full, 0, sizeof full);
		memcpy(&full, ub, size < sizeof full ? size : sizeof full);
		full.tsc = t;
		{
			size_t o = offsetof(struct pt_event, tsc);
			for (size_t i = 0; i < 8; ++i) if (o + i < size) ub[o + i] = ((uint8_t *) &full)[o + i];
		}
		memset(&ev, 0, sizeof ev); memcpy(&ev, ub, size < sizeof ev ? size : sizeof ev);
		bool noimg = r.chance(10);
		expimage = image; pimage = noimg ? nullptr : &image;
		op = EVENT;
		M.note += strf("event tsc %llu size %zu%s\n", (unsigned long long) t, size, stream ? " stream" : "");
		size_t before = calls;
		int e = L([&] { return pt_sb_event(S, pimage, (struct pt_event *) ub, size, stream, pflags); });
		__real_free(ub);
		if (toobad) {
			CK(e == -pte_invalid && calls == before, "short-event", "event of %zu bytes: %d", size, e);
			op = NONE; M.count("short_events");
			continue;
		}
		CK(e == 0, "event", "pt_sb_event: %d", e);
		CK(!cur, "unfinished", "decoder %d left in the middle of its turn", cur ? cur->id : -1);
		purge(~0ull);
		for (auto &d : D) if (!d->happly && (d->life == ACTIVE || d->life == RETIRED)) d->life = REMOVED;
		Dec *m = min_active();
		CK(!m || m->tsc > t, "due", "decoder %d has a due record left (%llu <= %llu)", m ? m->id : -1, m ? (unsigned long long) m->tsc : 0, (unsigned long long) t);
		for (auto &d : D) if (d->life == ACTIVE || d->life == RETIRED && !d->after_dump) CK(d->presented, "not-presented", "decoder %d (%s) did not see the event", d->id, d->life == ACTIVE ? "active" : "at its end");
		if (!noimg) CK(image == expimage, "image", "the image is not the one installed last");
		op = NONE;
		M.count("events");
		h = hashs(trace) ^ h * 31;
		if (!trace.empty()) M.nontrivial(h);
	}
	if (bad.empty()) for (int k = 0; k < 10; ++k) ctx_op(r);
	// End of the session: contexts we hold references to survive.
	op = FREE; cur = nullptr;
	L([&] { pt_sb_free(S); return 0; });
	for (auto &d : D) CK(!d->hdtor || d->dtors == 1, "dtor-missing", "decoder %d destroyed %d times", d->id, d->dtors);
	for (auto &c : C) c.insess = false;
	drop_dead();
	for (auto &c : C) {
		CK(pt_sb_ctx_image(c.c) == c.image, "ctx-after-free", "context lost with its session");
		M.count("contexts_outliving");
		while (c.refs--) L([&] { return pt_sb_ctx_put(c.c); });
	}
	CK(AM.clean(), "leak", "resources left: %s", AM.live().c_str());
	pt_iscache_free(isc);
	if (M.samples.size() < 3) M.sample(M.note.substr(0, 400));
	if (!bad.empty()) { M.note += "--- calls of the last event\n" + trace; M.violation(badkey, bad); }
}
