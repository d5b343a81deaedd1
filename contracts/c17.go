package raml

import (
	"context"
	"reflect"
)

// ---- C17: hooks

// ghostN counts the hooks fired so far (specification only).
var ghostN int

// The history of fired hooks, by position: which hook, and what it answered.
func U_ran(n int) HookFunc  { return vRunRan(n) }
func U_hookErr(n int) error { return vRunHookErr(n) }
func U_hooksErr(c, k any, n int) error {
	cc, _ := c.(context.Context)
	key, _ := k.(HookKey)
	for _, h := range sHooks(cc, key) {
		if err := vRunHookErrOf(h); err != nil {
			return err
		}
	}
	return nil
}

// sHooks: the hooks registered for key.
func sHooks(c context.Context, key HookKey) []HookFunc {
	if c == nil {
		return nil
	}
	h, _ := c.Value(key).([]HookFunc)
	return h
}

func sHookID(h HookFunc) uintptr { return reflect.ValueOf(h).Pointer() }

// contract__HookFunc: what a registered hook may do.
func contract__HookFunc(f HookFunc, ctx context.Context, r *RAML, params []any) {
	vHooks()
	n := ghostN
	vDefine("history", func(err error) bool {
		return ghostN == n+1 && vFuncID(U_ran(n)) == vFuncID(f) && vSame(err, U_hookErr(n))
	})
}

// hooksRan: hooks ran in order from position n up to the first failure, whose
// error is err.
func hooksRan(hs []HookFunc, n int, err error) bool {
	m := ghostN - n
	return 0 <= m && m <= len(hs) &&
		vForAll(0, m, func(i int) bool { return vFuncID(U_ran(n+i)) == vFuncID(hs[i]) }) &&
		vForAll(0, m-1, func(i int) bool { return U_hookErr(n+i) == nil }) &&
		vImplies(err == nil, m == len(hs) && (m == 0 || U_hookErr(n+m-1) == nil)) &&
		vImplies(err != nil, m > 0 && vSame(U_hookErr(n+m-1), err))
}

func contract_RAML_callHooks(r *RAML, key HookKey, params []any) {
	vProp("C17")
	vHooks()
	n := ghostN
	if r == nil {
		vEnsures("no model, no hooks", func(err error) bool { return err == nil && ghostN == n })
		return
	}
	c := r.ctx
	hs := sHooks(c, key)
	vInvariant("hooks present", vForAll(0, len(hs), func(i int) bool { return hs[i] != nil }))
	vLoopInv(func(k int) bool {
		return ghostN == n+k && vForAll(0, k, func(i int) bool { return vFuncID(U_ran(n+i)) == vFuncID(hs[i]) && U_hookErr(n+i) == nil })
	})
	vEnsures("hooks run in order until one fails", func(err error) bool { return hooksRan(hs, n, err) })
	vDefine("verdict", func(err error) bool { return vSame(err, U_hooksErr(c, key, n)) })
}

// Case: some registered hooks may be nil; those are passed over.
func contract_RAML_callHooks__nils(r *RAML, key HookKey, params []any) {
	vProp("C17")
	vRequires("receiver", r != nil)
	vHooks()
	n := ghostN
	hs := sHooks(r.ctx, key)
	vLoopInv(func(k int) bool { return n <= ghostN && ghostN <= n+k })
	vLoopInv(func(k int) bool { return vForAll(0, k, func(i int) bool { return hs[i] == nil || firedOK(hs[i], n) }) })
	vEnsures("every hook runs unless one fails", func(err error) bool {
		return err != nil || vForAll(0, len(hs), func(i int) bool { return hs[i] == nil || firedOK(hs[i], n) })
	})
	vEnsures("the failing hook is the last", func(err error) bool {
		return err == nil || ghostN > n && vSame(U_hookErr(ghostN-1), err)
	})
}

// firedOK: hook h has run without failing since position n.
func firedOK(h HookFunc, n int) bool {
	return vExists(n, ghostN, func(j int) bool { return vFuncID(U_ran(j)) == vFuncID(h) && U_hookErr(j) == nil })
}

func contract_RAML_getHooks(r *RAML, key HookKey) {
	vProp("C17")
	vRequires("receiver", r != nil)
	vModifies(&r.ctx)
	c := r.ctx
	hs := sHooks(c, key)
	vEnsures("registered hooks", func(res []HookFunc) bool {
		return len(res) == len(hs) && vForAll(0, len(hs), func(i int) bool { return vFuncID(res[i]) == vFuncID(hs[i]) })
	})
	vEnsures("registry kept", func(res []HookFunc) bool {
		return r.ctx != nil && vForAllStr(func(s string) bool { return vSame(sHooks(r.ctx, HookKey(s)), sHooks(c, HookKey(s))) })
	})
}

// onlyKey: the hooks of every other key are as before.
func onlyKey(key HookKey, c, c2 context.Context) bool {
	return vForAllStr(func(s string) bool {
		k := HookKey(s)
		return k == key || vSame(sHooks(c2, k), sHooks(c, k))
	})
}

func contract_RAML_setHooks(r *RAML, key HookKey, hooks []HookFunc) {
	vProp("C17")
	vRequires("receiver", r != nil)
	vModifies(&r.ctx)
	c := r.ctx
	vEnsures("registered", func() bool { return r.ctx != nil && vSame(sHooks(r.ctx, key), hooks) })
	vEnsures("other keys unaffected", func() bool { return onlyKey(key, c, r.ctx) })
}

func sameHooks(a, b []HookFunc) bool {
	return len(a) == len(b) && vForAll(0, len(a), func(i int) bool { return vFuncID(a[i]) == vFuncID(b[i]) })
}

func contract_RAML_AppendHook(r *RAML, key HookKey, hook HookFunc) {
	vProp("C17")
	vRequires("receiver", r != nil)
	vModifies(&r.ctx)
	c := r.ctx
	hs := sHooks(c, key)
	vEnsures("last of its key", func() bool {
		n := sHooks(r.ctx, key)
		return len(n) == len(hs)+1 && vFuncID(n[len(hs)]) == vFuncID(hook) &&
			vForAll(0, len(hs), func(i int) bool { return vFuncID(n[i]) == vFuncID(hs[i]) })
	})
	vEnsures("other keys unaffected", func() bool { return onlyKey(key, c, r.ctx) })
}

func contract_RAML_PrependHook(r *RAML, key HookKey, hook HookFunc) {
	vProp("C17")
	vRequires("receiver", r != nil)
	vModifies(&r.ctx)
	c := r.ctx
	hs := sHooks(c, key)
	vEnsures("first of its key", func() bool {
		n := sHooks(r.ctx, key)
		return len(n) == len(hs)+1 && vFuncID(n[0]) == vFuncID(hook) &&
			vForAll(0, len(hs), func(i int) bool { return vFuncID(n[i+1]) == vFuncID(hs[i]) })
	})
	vEnsures("other keys unaffected", func() bool { return onlyKey(key, c, r.ctx) })
}

// without: n is hs without its element i.
func without(n, hs []HookFunc, i int) bool {
	return len(n) == len(hs)-1 &&
		vForAll(0, i, func(j int) bool { return vFuncID(n[j]) == vFuncID(hs[j]) }) &&
		vForAll(i, len(n), func(j int) bool { return vFuncID(n[j]) == vFuncID(hs[j+1]) })
}

func contract_RAML_RemoveHook(r *RAML, key HookKey, hook HookFunc) {
	vProp("C17")
	vRequires("receiver", r != nil)
	vModifies(&r.ctx)
	c := r.ctx
	hs := sHooks(c, key)
	id := sHookID(hook)
	vElem(func(i int) bool { return sHookID(hs[i]) == id })
	vEnsures("removes that hook, keeping the order of the rest", func() bool {
		n := sHooks(r.ctx, key)
		return vImplies(vForAll(0, len(hs), func(i int) bool { return sHookID(hs[i]) != id }), sameHooks(n, hs)) &&
			vForAll(0, len(hs), func(i int) bool {
				return sHookID(hs[i]) != id || vExists(0, i, func(j int) bool { return sHookID(hs[j]) == id }) || without(n, hs, i)
			})
	})
	vEnsures("other keys unaffected", func() bool { return onlyKey(key, c, r.ctx) })
}

func contract_RAML_ClearHooks(r *RAML, key HookKey) {
	vProp("C17")
	vRequires("receiver", r != nil)
	vModifies(&r.ctx)
	c := r.ctx
	vEnsures("none left", func() bool { return len(sHooks(r.ctx, key)) == 0 })
	vEnsures("other keys unaffected", func() bool { return onlyKey(key, c, r.ctx) })
}

func contract_BaseShape_callRAMLHooks(s *BaseShape, key HookKey, params []any) {
	vProp("C17")
	vRequires("receiver", s != nil)
	vHooks()
	n := ghostN
	r := s.raml
	if r == nil {
		vEnsures("no model, no hooks", func(err error) bool { return err == nil && ghostN == n })
		return
	}
	c := r.ctx
	hs := sHooks(c, key)
	vInvariant("hooks present", vForAll(0, len(hs), func(i int) bool { return hs[i] != nil }))
	vEnsures("hooks of the model run", func(err error) bool { return hooksRan(hs, n, err) && vSame(err, U_hooksErr(c, key, n)) })
}

func contract_BaseShape_AppendRAMLHook(s *BaseShape, key HookKey, hook HookFunc) {
	vProp("C17")
	vRequires("receiver", s != nil)
	vModifies(&s.raml)
	o := s.raml
	if o != nil {
		vModifies(&o.ctx)
	}
	var c context.Context
	if o != nil {
		c = o.ctx
	}
	hs := sHooks(c, key)
	vEnsures("last of its key in the model", func() bool {
		if s.raml == nil || o != nil && s.raml != o {
			return false
		}
		n := sHooks(s.raml.ctx, key)
		return len(n) == len(hs)+1 && vFuncID(n[len(hs)]) == vFuncID(hook) &&
			vForAll(0, len(hs), func(i int) bool { return vFuncID(n[i]) == vFuncID(hs[i]) }) && onlyKey(key, c, s.raml.ctx)
	})
}

func contract_BaseShape_PrepenRAMLHook(s *BaseShape, key HookKey, hook HookFunc) {
	vProp("C17")
	vRequires("receiver", s != nil)
	vModifies(&s.raml)
	o := s.raml
	if o != nil {
		vModifies(&o.ctx)
	}
	var c context.Context
	if o != nil {
		c = o.ctx
	}
	hs := sHooks(c, key)
	vEnsures("first of its key in the model", func() bool {
		if s.raml == nil || o != nil && s.raml != o {
			return false
		}
		n := sHooks(s.raml.ctx, key)
		return len(n) == len(hs)+1 && vFuncID(n[0]) == vFuncID(hook) &&
			vForAll(0, len(hs), func(i int) bool { return vFuncID(n[i+1]) == vFuncID(hs[i]) }) && onlyKey(key, c, s.raml.ctx)
	})
}

func contract_BaseShape_RemoveRAMLHook(s *BaseShape, key HookKey, hook HookFunc) {
	vProp("C17")
	vRequires("receiver", s != nil)
	r := s.raml
	if r == nil {
		return
	}
	vModifies(&r.ctx)
	c := r.ctx
	hs := sHooks(c, key)
	id := sHookID(hook)
	vEnsures("removes that hook, keeping the order of the rest", func() bool {
		n := sHooks(r.ctx, key)
		return vImplies(vForAll(0, len(hs), func(i int) bool { return sHookID(hs[i]) != id }), sameHooks(n, hs)) &&
			vForAll(0, len(hs), func(i int) bool {
				return sHookID(hs[i]) != id || vExists(0, i, func(j int) bool { return sHookID(hs[j]) == id }) || without(n, hs, i)
			})
	})
	vEnsures("other keys unaffected", func() bool { return onlyKey(key, c, r.ctx) })
}

func contract_BaseShape_ClearRAMLHooks(s *BaseShape, key HookKey) {
	vProp("C17")
	vRequires("receiver", s != nil)
	r := s.raml
	if r == nil {
		return
	}
	vModifies(&r.ctx)
	c := r.ctx
	vEnsures("none left", func() bool { return len(sHooks(r.ctx, key)) == 0 })
	vEnsures("other keys unaffected", func() bool { return onlyKey(key, c, r.ctx) })
}
