// Debug support (C14): every use of an invalid iterator and every broken precondition must be reported by an assertion.
// Included inside namespace mc. Everything is judged by behaviour: an assertion fires (a test handler throws) or not.
#if MCDEBUG

#define MUST_REPORT(WHAT, ...) do { if (!dbg_asserts([&] { __VA_ARGS__; })) { fail(T_DEBUG, "not reported: %s", WHAT); return; } } while (0)
#define MUST_NOT_REPORT(WHAT, ...) do { if (dbg_asserts([&] { __VA_ARGS__; })) { fail(T_DEBUG, "wrongly reported: %s", WHAT); return; } } while (0)

// moves and comparisons of one invalid iterator
template <class I> static void uses_of(CB& c, const I& bad, const char* who) {
    const CB& cc = c; char buf[200];
#define U(WHAT, ...) do { std::snprintf(buf, sizeof buf, "%s of %s", WHAT, who); MUST_REPORT(buf, __VA_ARGS__); } while (0)
    U("dereference", (void)*bad);
    U("operator->", (void)bad.operator->());
    U("pre-increment", I t(bad); ++t);
    U("post-increment", I t(bad); t++);
    U("pre-decrement", I t(bad); --t);
    U("post-decrement", I t(bad); t--);
    U("+= 1", I t(bad); t += 1);
    U("-= 1", I t(bad); t -= 1);
    U("+= -1", I t(bad); t += -1);
    U("-= -1", I t(bad); t -= -1);
    U("+ 1", (void)(bad + 1));
    U("- 1", (void)(bad - 1));
    U("1 +", (void)(1 + bad));
    U("index 0", (void)bad[0]);
    U("index 1", (void)bad[1]);
    U("difference with begin()", (void)(bad - c.begin()));
    U("difference from end()", (void)(c.end() - bad));
    U("difference with const begin()", (void)(bad - cc.begin()));
    U("== begin()", (void)(bad == c.begin()));
    U("begin() ==", (void)(c.begin() == bad));
    U("== const end()", (void)(bad == cc.end()));
    U("const end() ==", (void)(cc.end() == bad));
    U("!= begin()", (void)(bad != c.begin()));
    U("begin() !=", (void)(c.begin() != bad));
    U("< end()", (void)(bad < c.end()));
    U("end() <", (void)(c.end() < bad));
    U("> begin()", (void)(bad > c.begin()));
    U("begin() >", (void)(c.begin() > bad));
    U("<= end()", (void)(bad <= cc.end()));
    U(">= begin()", (void)(bad >= cc.begin()));
    U("converted to const_iterator, dereference", CIt t(bad); (void)*t);
    U("converted to const_iterator, comparison", CIt t(bad); (void)(t == cc.begin()));
    U("assigned, dereference", I t; t = bad; (void)*t);
#undef U
}
static void passing_of(CB& c, const It& bad, const char* who) {
    char buf[200];
#define U(WHAT, ...) do { std::snprintf(buf, sizeof buf, "%s given %s", WHAT, who); MUST_REPORT(buf, __VA_ARGS__); } while (0)
    { E x(ID_NEW); U("insert(pos, rvalue)", c.insert(bad, MV(x))); }
    { E x(ID_NEW); U("rinsert(pos, rvalue)", c.rinsert(bad, MV(x))); }
    U("insert(pos)", c.insert(bad));
    U("rinsert(pos)", c.rinsert(bad));
#if HAS_COPY
    { E x(ID_NEW); const E& r = x; Source s(2); const E* f = &s.v[0]; InIt in(&s.ctl), ine;
      U("insert(pos, item)", c.insert(bad, r));
      U("rinsert(pos, item)", c.rinsert(bad, r));
      U("insert(pos, n, item)", c.insert(bad, std::size_t(1), r));
      U("rinsert(pos, n, item)", c.rinsert(bad, std::size_t(1), r));
      U("insert(pos, first, last)", c.insert(bad, f, f + 2));
      U("rinsert(pos, first, last)", c.rinsert(bad, f, f + 2));
      U("insert(pos, 0, item)", c.insert(bad, std::size_t(0), r));
      U("rinsert(pos, 0, item)", c.rinsert(bad, std::size_t(0), r));
      U("insert(pos, empty range)", c.insert(bad, f, f));
      U("rinsert(pos, empty range)", c.rinsert(bad, f, f));
      U("insert(pos, empty input range)", c.insert(bad, ine, ine));
      U("rinsert(pos, empty input range)", c.rinsert(bad, ine, ine));
      U("insert(pos, input range)", c.insert(bad, in, ine));
      s.ctl.pos = 0; InIt in2(&s.ctl);
      U("rinsert(pos, input range)", c.rinsert(bad, in2, ine)); }
#endif
    U("erase(pos)", c.erase(bad));
    U("rerase(pos)", c.rerase(bad));
    U("erase(pos, end())", c.erase(bad, c.end()));
    U("erase(begin(), pos)", c.erase(c.begin(), bad));
    U("erase(pos, pos)", c.erase(bad, bad));
    U("rerase(pos, end())", c.rerase(bad, c.end()));
    U("rerase(begin(), pos)", c.rerase(c.begin(), bad));
    U("rerase(pos, pos)", c.rerase(bad, bad));
    U("rotate(pos)", c.rotate(bad));
#undef U
}

static void debug_uses(World& w, Held& h) {
    CB& c = *w.c; std::vector<int> before = content(c); int cap0 = cap_of(c); char who[100];
    for (size_t i = 0; i < h.it.size() && g_viols.empty(); ++i) {
        if (!dbg_deref_ok(h.it[i])) { std::snprintf(who, sizeof who, "an invalidated iterator (element %d)", int(i)); uses_of(c, h.it[i], who); if (g_viols.empty()) passing_of(c, h.it[i], who); }
        if (g_viols.empty() && !dbg_deref_ok(h.cit[i])) { std::snprintf(who, sizeof who, "an invalidated const_iterator (element %d)", int(i)); uses_of(c, h.cit[i], who); }
        if (g_viols.empty() && dbg_deref_ok(h.it[i]) != dbg_deref_ok(h.cit[i])) fail(T_DEBUG, "iterator and const_iterator to element %d differ in validity", int(i));
    }
    if (g_viols.empty() && dbg_asserts([&] { (void)(h.end == c.end()); })) passing_of(c, h.end, "an invalidated end()");
    if (g_viols.empty() && (content(c) != before || cap_of(c) != cap0)) fail(T_DEBUG, "a reported misuse changed the container");
}

// broken preconditions in the current state
static void misuse_core(CB& c, const Model& m) {
    const CB& cc = c; int n = m.size();
    const std::ptrdiff_t big = std::ptrdiff_t((std::size_t(-1)) / 2);
    MUST_REPORT("*end()", (void)*c.end());
    MUST_REPORT("*const end()", (void)*cc.end());
    MUST_REPORT("end()->", (void)c.end().operator->());
    MUST_REPORT("++end()", It t = c.end(); ++t);
    MUST_REPORT("end()++", It t = c.end(); t++);
    MUST_REPORT("++const end()", CIt t = cc.end(); ++t);
    MUST_REPORT("end()[0]", (void)c.end()[0]);
    MUST_REPORT("--begin()", It t = c.begin(); --t);
    MUST_REPORT("begin()--", It t = c.begin(); t--);
    MUST_REPORT("--const begin()", CIt t = cc.begin(); --t);
    for (int i = 0; i <= n; ++i) {
        for (int over = 1; over <= 3; ++over) {
            MUST_REPORT("moving past end() by +=", It t = c.begin() + i; t += n - i + over);
            MUST_REPORT("moving past end() by -=", It t = c.begin() + i; t -= -(n - i + over));
            MUST_REPORT("moving past end() by +", (void)((cc.begin() + i) + (n - i + over)));
            MUST_REPORT("moving before begin() by -=", It t = c.begin() + i; t -= i + over);
            MUST_REPORT("moving before begin() by +=", It t = c.begin() + i; t += -(i + over));
            MUST_REPORT("moving before begin() by -", (void)((cc.begin() + i) - (i + over)));
        }
        MUST_REPORT("huge +=", It t = c.begin() + i; t += big);
        MUST_REPORT("huge -=", It t = c.begin() + i; t -= big);
        MUST_REPORT("hugely negative +=", CIt t = cc.begin() + i; t += -big);
        MUST_REPORT("hugely negative -=", CIt t = cc.begin() + i; t -= -big);
        MUST_REPORT("iterator index at end()", (void)(c.begin() + i)[n - i]);
        MUST_REPORT("iterator index before begin()", (void)(c.begin() + i)[-i - 1]);
        MUST_NOT_REPORT("moving to end()", It t = c.begin() + i; t += n - i; t -= n - i; t -= i; t += i);
        for (int j = 0; j < i; ++j) {
            MUST_REPORT("erase of a reversed range", c.erase(c.begin() + i, c.begin() + j));
            MUST_REPORT("rerase of a reversed range", c.rerase(c.begin() + i, c.begin() + j));
        }
    }
    std::size_t bad[] = {std::size_t(n), std::size_t(n) + 1, std::size_t(m.cap), std::size_t(m.cap) + 1, std::size_t(-1), std::size_t(-1) / 2};
    for (size_t i = 0; i < sizeof bad / sizeof *bad; ++i) if (bad[i] >= std::size_t(n)) {
        MUST_REPORT("operator[] beyond the size", (void)c[bad[i]]);
        MUST_REPORT("const operator[] beyond the size", (void)cc[bad[i]]);
    }
    if (n == 0) {
        MUST_REPORT("front() of an empty container", (void)c.front());
        MUST_REPORT("back() of an empty container", (void)c.back());
        MUST_REPORT("const front() of an empty container", (void)cc.front());
        MUST_REPORT("const back() of an empty container", (void)cc.back());
        MUST_REPORT("pop_front() on an empty container", c.pop_front());
        MUST_REPORT("pop_back() on an empty container", c.pop_back());
    }
    MUST_REPORT("erase(end())", c.erase(c.end()));
    MUST_REPORT("rerase(end())", c.rerase(c.end()));
    MUST_REPORT("rotate(end())", c.rotate(c.end()));
#if CONT == 1
    MUST_REPORT("a capacity lower than the minimum capacity", CB::capacity_type(std::size_t(m.cap), std::size_t(m.cap) + 1));
    MUST_NOT_REPORT("a minimum capacity equal to the capacity", CB::capacity_type(std::size_t(m.cap), std::size_t(m.cap)));
#endif
#if CONT == 0
    std::size_t over[] = {std::size_t(n) + 1, std::size_t(n) + 2, std::size_t(-1)};
    for (int i = 0; i < 3; ++i) { MUST_REPORT("erase_begin(n) beyond the size", c.erase_begin(over[i])); MUST_REPORT("erase_end(n) beyond the size", c.erase_end(over[i])); }
#endif
    { // uninitialized iterators
        It s; CIt cs;
        uses_of(c, s, "an uninitialized iterator"); if (!g_viols.empty()) return;
        uses_of(c, cs, "an uninitialized const_iterator"); if (!g_viols.empty()) return;
        passing_of(c, s, "an uninitialized iterator"); if (!g_viols.empty()) return;
    }
#if HAS_COPY
    { E x(ID_NEW); const E& r = x; Source s(3); const E* f = &s.v[0];
      for (int k = 1; k <= 3; ++k) {
          MUST_REPORT("assign with a capacity lower than n", c.assign(mkcap(k - 1, 0), std::size_t(k), r));
          MUST_REPORT("construction with a capacity lower than n", CB t(mkcap(k - 1, 0), std::size_t(k), r, A(3)));
          MUST_REPORT("assign (integers) with a capacity lower than n", c.assign(mkcap(k - 1, 0), k, 7));
          MUST_REPORT("construction (integers) with a capacity lower than n", CB t(mkcap(k - 1, 0), k, 7, A(3)));
          MUST_REPORT("insert of a reversed range", c.insert(c.begin(), f + k, f));
          MUST_REPORT("rinsert of a reversed range", c.rinsert(c.begin(), f + k, f));
          MUST_REPORT("assign of a reversed range", c.assign(f + k, f));
          MUST_REPORT("assign of a reversed range", c.assign(mkcap(2, 0), f + k, f));
          MUST_REPORT("construction from a reversed range", CB t(f + k, f, A(3)));
          MUST_REPORT("construction from a reversed range", CB t(mkcap(2, 0), f + k, f, A(3)));
      } }
#endif
}
static void debug_misuse(World& w) {
    CB& c = *w.c; const Model m = w.m; std::vector<int> before = content(c);
    misuse_core(c, m);
    if (!g_viols.empty()) return;
    // another container: its iterators do not work here, and die with it or when swapped away
    for (int how = 0; how < 5 && g_viols.empty(); ++how) {
        std::memset(slot_mem(1 - w.slot), 0, sizeof g_mem[0]);
        CB* o = new (slot_mem(1 - w.slot)) CB(mkcap(3, 0), A(2)); build_geo(*o, 1, how == 3 ? 3 : 2);
        It ob = o->begin(), oe = o->end(), o1 = o->begin() + 1; CIt cob = static_cast<const CB&>(*o).begin() + 1;
        It cp(o1); It as; as = o1; It own = c.begin(); as = own; as = o1; // registrations moved around
        if (how == 0) { // everything is in order
            if (!dbg_deref_ok(o1) || !dbg_deref_ok(cob) || !dbg_deref_ok(cp) || !dbg_deref_ok(as) || dbg_asserts([&] { (void)(ob < oe); (void)(oe - cp); (void)(as == o1); (void)(cob <= o1); })) fail(T_DEBUG, "wrongly reported: use of a valid iterator");
        } else if (how == 1) { // mixing
#define MIX(WHAT, ...) if (g_viols.empty() && !dbg_asserts([&] { __VA_ARGS__; })) fail(T_DEBUG, "not reported: %s with an iterator of another container", WHAT)
            MIX("comparison", (void)(c.begin() == o1)); MIX("comparison", (void)(o1 == c.begin())); MIX("!=", (void)(o1 != c.end())); MIX("<", (void)(c.begin() < o1)); MIX("<", (void)(o1 < c.end()));
            MIX(">=", (void)(c.begin() >= cob)); MIX("difference", (void)(c.end() - o1)); MIX("difference", (void)(cob - c.begin()));
            if (g_viols.empty()) passing_of(c, o1, "an iterator of another container");
            if (g_viols.empty()) passing_of(c, ob, "begin() of another container");
            if (g_viols.empty()) passing_of(c, oe, "end() of another container");
        } else if (how == 2) {
            destroy_cb(o);
            uses_of(c, o1, "an iterator of a destroyed container"); if (g_viols.empty()) uses_of(c, cob, "a const_iterator of a destroyed container");
            if (g_viols.empty()) uses_of(c, cp, "a copied iterator of a destroyed container"); if (g_viols.empty()) uses_of(c, as, "an assigned iterator of a destroyed container");
            if (g_viols.empty()) uses_of(c, oe, "end() of a destroyed container"); if (g_viols.empty()) passing_of(c, oe, "end() of a destroyed container");
        } else if (how == 3) { // overwritten by a push
            E x(ID_NEW); o->push_back(MV(x));
            uses_of(*o, ob, "an iterator to an overwritten element"); if (g_viols.empty()) passing_of(*o, ob, "an iterator to an overwritten element");
            if (CONT == 0 && g_viols.empty() && (!dbg_deref_ok(o1) || !dbg_deref_ok(cob) || !dbg_deref_ok(cp) || !dbg_deref_ok(as))) fail(T_DEBUG, "iterators to other elements reported after an overwriting push");
        } else {
            CB* p = new (g_mem[2]) CB(mkcap(2, 0), A(3)); build_geo(*p, 0, 1); It p0 = p->begin();
            o->swap(*p);
            uses_of(*o, o1, "an iterator of a swapped container"); if (g_viols.empty()) uses_of(*p, o1, "an iterator of a swapped container (other side)");
            if (g_viols.empty()) uses_of(*p, p0, "an iterator of the other swapped container"); if (g_viols.empty()) uses_of(*o, p0, "an iterator of the other swapped container (other side)");
            if (g_viols.empty()) passing_of(*p, o1, "an iterator of a swapped container");
            destroy_cb(p);
        }
        destroy_cb(o);
    }
    if (g_viols.empty() && content(c) != before) fail(T_DEBUG, "a reported misuse changed the container");
}
#endif
