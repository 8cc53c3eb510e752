class Monitor:
    """observation points of the interpreter; every hook may be overridden by a check"""
    def on_signal(self, I, st, ci, this, args, site): return [(st, ('void',))]
    def on_virtual(self, I, st, m, ci, th, args, site): return None
    def on_indirect(self, I, st, fp, args, site, ins): return None
    def on_call(self, I, st, ci, th, args, site, ins): pass
    def on_null(self, I, st, site, what): pass
    def on_undef(self, I, st, site, loc=None): pass
    def on_deref(self, I, st, p, site): pass
    def on_new(self, I, st, loc, t, site): pass
    def on_delete(self, I, st, p, ins, site): pass
    def on_narrow(self, I, st, v, ins, site): return None
    def on_realloc(self, I, st, loc, old, new, site): pass
    def on_setsize(self, I, st, loc, v, n): pass
    def on_poke(self, I, st, p, v, site, cond=True): pass
    def on_charload(self, I, st, p, site): pass
    def on_rawview(self, I, st, loc, p, n, site): pass
    def on_bufwrite(self, I, st, p, n, site): pass
    def on_append_header(self, I, st, loc, hdr, f, s, site): pass
    def on_append(self, I, st, loc, v, site): pass
    def on_seq(self, I, st, op, loc, v, site): pass
    def on_index(self, I, st, loc, i, n, site): pass
