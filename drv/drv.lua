-- Interpreter of the operation language over the Lua interface (counterpart of drv.py).
local clingo = require("clingo")
local unpack = table.unpack
local function enc(s)
    if s == "" then return "%" end
    return (s:gsub("[^a-zA-Z0-9_+%-%.()=<>&']", function (c) return string.format("%%%02X", c:byte()) end))
end
local function dec(s)
    if s == "%" then return "" end
    return (s:gsub("%%(%x%x)", function (h) return string.char(tonumber(h, 16)) end))
end
local function split(s, sep)
    local r, p = {}, 1
    while true do
        local a, b = s:find(sep, p, true)
        if not a then r[#r + 1] = s:sub(p); return r end
        r[#r + 1] = s:sub(p, a - 1)
        p = b + 1
    end
end
local function lst(s, sep) if s == nil or s == "" then return {} end return split(s, sep or ";") end
local out = {}
local inj, ninj
local function o(s)
    out[#out + 1] = s
    if inj and s:sub(1, #inj[1]) == inj[1] then
        ninj = ninj + 1
        if ninj == inj[2] then
            out[#out + 1] = "!injected"
            local m = "injected-" .. ninj
            local k = inj[3] % 6
            if k == 0 then error(m) elseif k == 1 then error(m, 0) elseif k == 2 then error({msg = m}) elseif k == 3 then error(12345) elseif k == 4 then error(setmetatable({}, {__tostring = function () return m end})) else error(nil) end
        end
    end
end
local function build(t, i)
    local k = split(t[i[1]], ":")
    i[1] = i[1] + 1
    if k[1] == "n" then return clingo.Number(math.tointeger(tonumber(k[2]))) end
    if k[1] == "s" then return clingo.String(dec(k[2])) end
    if k[1] == "i" then return clingo.Infimum end
    if k[1] == "p" then return clingo.Supremum end
    local a = {}
    if k[1] == "f" then
        local n = tonumber(k[4])
        for _ = 1, n do a[#a + 1] = build(t, i) end
        if n == 0 then return clingo.Function(dec(k[2]), nil, k[3] == "+") end
        return clingo.Function(dec(k[2]), a, k[3] == "+")
    end
    if k[1] == "t" then
        for _ = 1, tonumber(k[2]) do a[#a + 1] = build(t, i) end
        return clingo.Tuple(a)
    end
    error("bad symbol")
end
local function E(s) return build(split(s, " "), {1}) end
local function B(x) return x and "1" or "0" end
local function ser(s)
    local t = tostring(s.type)
    if t == "Number" then return "n:" .. string.format("%d", s.number) end
    if t == "String" then return "s:" .. enc(s.string) end
    if t == "Infimum" then return "i" end
    if t == "Supremum" then return "p" end
    if s.positive == s.negative then return "badsign" end
    local a = s.arguments
    local r
    if s.name == "" and s.positive then r = "t:" .. #a else r = "f:" .. enc(s.name) .. ":" .. (s.positive and "+" or "-") .. ":" .. #a end
    for _, x in ipairs(a) do r = r .. " " .. ser(x) end
    return r
end
local function num(x) return string.format("%d", x) end
local function ints(t)
    local r = {}
    for _, x in ipairs(t) do r[#r + 1] = num(x) end
    return #r > 0 and table.concat(r, ",") or "-"
end
local function wl(t)
    local r = {}
    for _, x in ipairs(t) do r[#r + 1] = num(x[1]) .. "=" .. num(x[2]) end
    return #r > 0 and table.concat(r, ",") or "-"
end
local function isint(s) return s:match("^[+-]?%d+$") ~= nil end
local function join(v, sep) table.sort(v); return table.concat(v, sep or "|") end

local Obs = {}
Obs.__index = Obs
function Obs:init_program(i) o("O init " .. B(i)) end
function Obs:begin_step() o("O begin") end
function Obs:end_step() o("O end") end
function Obs:rule(c, h, b) o("O rule " .. B(c) .. " " .. ints(h) .. " " .. ints(b)) end
function Obs:weight_rule(c, h, l, b) o("O wrule " .. B(c) .. " " .. ints(h) .. " " .. num(l) .. " " .. wl(b)) end
function Obs:minimize(p, l) o("O min " .. num(p) .. " " .. wl(l)) end
function Obs:project(a) o("O project " .. ints(a)) end
function Obs:output_atom(s, a) o("O outatom " .. enc(tostring(s)) .. " " .. num(a)) end
function Obs:output_term(s, c) o("O outterm " .. enc(tostring(s)) .. " " .. ints(c)) end
local extn = {Release = "Release", Free = "Free", True = "True_", False = "False_"}
function Obs:external(a, t) o("O ext " .. num(a) .. " " .. extn[tostring(t)]) end
function Obs:assume(l) o("O assume " .. ints(l)) end
local heun = {Level = "Level", Sign = "Sign", Factor = "Factor", Init = "Init", True = "True", False = "False"}
function Obs:heuristic(a, t, b, p, c) o("O heu " .. num(a) .. " " .. heun[tostring(t)] .. " " .. num(b) .. " " .. num(p) .. " " .. ints(c)) end
function Obs:acyc_edge(u, v, c) o("O edge " .. num(u) .. " " .. num(v) .. " " .. ints(c)) end
function Obs:theory_term_number(i, n) o("O tnum " .. num(i) .. " " .. num(n)) end
function Obs:theory_term_string(i, n) o("O tstr " .. num(i) .. " " .. enc(n)) end
function Obs:theory_term_compound(i, n, a) o("O tcomp " .. num(i) .. " " .. num(n) .. " " .. ints(a)) end
function Obs:theory_element(i, t, c) o("O telem " .. num(i) .. " " .. ints(t) .. " " .. ints(c)) end
function Obs:theory_atom(a, t, e) o("O tatom " .. num(a) .. " " .. num(t) .. " " .. ints(e)) end
function Obs:theory_atom_with_guard(a, t, e, op, r) o("O tatomg " .. num(a) .. " " .. num(t) .. " " .. ints(e) .. " " .. num(op) .. " " .. num(r)) end

local D
local function reset() D = {c = {}, cur = 0, funs = {}, nfuns = 0} inj = nil collectgarbage() end
reset()
local function ctl() local c = D.c[D.cur]; if not c then error("no control") end return c end
local function isnil(x) if x == nil then return "nil" end return x end

local op = {}
function op.sym(e)
    local s = E(e)
    local t = tostring(s)
    local q = clingo.parse_term(t)
    o(table.concat({"sym", ser(s), enc(t), ser(q), B(s == q and not (s ~= q))}, " | "))
end
function op.symerr(e, p)
    local r = E(e)[p]
    if r == nil then error("no such property") end
    if type(r) == "boolean" then r = B(r) elseif math.type(r) == "integer" then r = num(r) elseif type(r) == "string" then r = enc(r)
    else local x = {} for _, y in ipairs(r) do x[#x + 1] = ser(y) end r = table.concat(x, ";") end
    o("val " .. r)
end
function op.cmp(x, y)
    local a, b = E(x), E(y)
    o("cmp " .. B(a < b) .. B(a <= b) .. B(a == b) .. B(a ~= b) .. B(a >= b) .. B(a > b) .. " ?")
end
function op.order(es)
    local v = {}
    for _, x in ipairs(lst(es)) do v[#v + 1] = E(x) end
    table.sort(v, function (a, b) return a < b end)
    for i, x in ipairs(v) do v[i] = ser(x) end
    o("order " .. table.concat(v, ";"))
end
function op.parse(t) o("parse " .. ser(clingo.parse_term(dec(t), function () end))) end
function op.failat(p, k, e) inj, ninj = {dec(p), tonumber(k), tonumber(e)}, 0 end
function op.nofail() inj = nil end
function op.new(i, args)
    D.cur = tonumber(i)
    local a = {}
    for _, x in ipairs(lst(args)) do a[#a + 1] = dec(x) end
    D.c[D.cur] = clingo.Control(a, function (c, m) o("log " .. tostring(c) .. " " .. enc(m)) end)
end
function op.use(i) D.cur = tonumber(i) end
function op.del(i) D.c[tonumber(i)] = nil; collectgarbage() end
function op.add(name, params, text)
    local p = {}
    for _, x in ipairs(lst(params)) do p[#p + 1] = dec(x) end
    ctl():add(dec(name), p, dec(text))
end
function op.load(path) ctl():load(dec(path)) end
function op.extfun(name, ret)
    D.nfuns = D.nfuns + 1
    D.funs[name] = function (_, ...)
        local a = {...}
        local r = {}
        for _, x in ipairs(a) do r[#r + 1] = ser(x) end
        o("call " .. name .. " " .. (#r > 0 and table.concat(r, ";") or "-"))
        if ret == "err" then error("extfun failed") end
        if ret == "echo" then return a end
        if ret == "first" then return a[1] end
        if ret == "none" then return {} end
        if ret == "tuple" then return clingo.Tuple(a) end
        if ret == "nargs" then return #a end
        if ret == "wrap" then return clingo.Function("w", a, #a == 0) end
        if ret == "each" then
            local t = {}
            for _, x in ipairs(a) do t[#t + 1] = clingo.Function("e", {x}) end
            return t
        end
        if ret == "dup" then return {a[1], a[1], 1} end
        if ret == "gen" then
            local t = {}
            for i, x in ipairs(a) do t["k" .. i] = x end
            return t
        end
        if ret == "many" then
            local t = {}
            for i = 0, 299 do t[i] = clingo.Function("m", {clingo.Number(i), table.unpack(a)}) end
            return t
        end
        if ret:sub(1, 6) == "errat:" then
            D.nerr = (D.nerr or 0) + 1
            if D.nerr == tonumber(ret:sub(7)) then error("extfun failed") end
            return a[1]
        end
        r = {}
        for _, x in ipairs(split(ret, ";")) do r[#r + 1] = E(x) end
        return r
    end
end
function op.ground(parts)
    local ps = {}
    for _, p in ipairs(split(parts, "|")) do
        local q = split(p, ";")
        local v = {}
        for i = 2, #q do v[#v + 1] = E(q[i]) end
        ps[#ps + 1] = {dec(q[1]), v}
    end
    if D.nfuns > 0 then ctl():ground(ps, D.funs) else ctl():ground(ps) end
end
local function syms(m, t)
    local r = {}
    for _, x in ipairs(m:symbols(t)) do r[#r + 1] = enc(tostring(x)) end
    return #r > 0 and table.concat(r, " ") or "-"
end
local function model(m)
    o(table.concat({"M", num(m.number), tostring(m.type), ints(m.cost), B(m.optimality_proven), num(m.thread_id - 1), syms(m, {shown = true}), syms(m, {atoms = true}),
        syms(m, {terms = true}), syms(m, {atoms = true, complement = true}), "?"}, "\t"))
    local ats = {}
    for _, x in ipairs(m:symbols{atoms = true}) do ats[tostring(x)] = true end
    for sa in m.context.symbolic_atoms:iter() do
        local inn = ats[tostring(sa.symbol)] == true
        if m:contains(sa.symbol) ~= inn then o("BAD contains " .. tostring(sa.symbol)) end
        if sa.literal == 0 then
            if inn then o("BAD zero " .. tostring(sa.symbol)) end
        elseif tostring(m.type) == "StableModel" and (m:is_true(sa.literal) ~= inn or m:is_true(-sa.literal) == inn) then o("BAD is_true " .. tostring(sa.symbol)) end
    end
    local s = {}
    for _, x in ipairs(m:symbols{shown = true}) do s[#s + 1] = tostring(x) end
    if tostring(m) ~= table.concat(s, " ") then o("BAD str " .. tostring(m)) end
end
local function ass(s)
    local r = {}
    for _, x in ipairs(lst(s)) do
        if x:sub(1, 1) == "=" then
            local a = ctl().symbolic_atoms:lookup(clingo.parse_term(dec(x:sub(3))))
            if a == nil then error("no such atom") end
            r[#r + 1] = x:sub(2, 2) == "+" and a.literal or -a.literal
        elseif not isint(x) then r[#r + 1] = {clingo.parse_term(dec(x:sub(2))), x:sub(1, 1) == "+"}
        else r[#r + 1] = math.tointeger(tonumber(x)) end
    end
    return r
end
local function satom(x) return enc(tostring(x.symbol)) .. " " .. num(x.literal) .. " " .. B(x.is_fact) .. B(x.is_external) end
local function dump_satoms(sa)
    local v = {}
    for x in sa:iter() do
        v[#v + 1] = satom(x)
        local y = sa:lookup(x.symbol)
        if y == nil or y.symbol ~= x.symbol or y.literal ~= x.literal then o("BAD lookup " .. tostring(x.symbol)) end
    end
    o("satoms " .. #sa .. " " .. join(v))
    local sg = {}
    for _, s in ipairs(sa.signatures) do sg[#sg + 1] = enc(s[1]) .. "/" .. num(s[2]) .. "/" .. B(s[3]) end
    o("sigs " .. join(sg))
    for _, s in ipairs(sa.signatures) do
        local w = {}
        for x in sa:by_signature(s[1], s[2], s[3]) do w[#w + 1] = enc(tostring(x.symbol)) end
        o("sig " .. enc(s[1]) .. "/" .. num(s[2]) .. "/" .. B(s[3]) .. " " .. join(w))
    end
end
local function act(m, onm, cb)
    for _, a in ipairs(lst(onm, "|")) do
        local k, v = a:sub(1, 1), a:sub(3)
        if k == "x" and not cb then    -- documented: models can only be extended in the model callback
            if pcall(function () m:extend({clingo.Number(1)}) end) then o("BAD extend accepted") end
        elseif k == "x" then
            local xs = {}
            for _, x in ipairs(lst(v)) do xs[#xs + 1] = E(x) end
            m:extend(xs)
            o("X " .. syms(m, {theory = true}))
        elseif k == "c" then m.context:add_clause(ass(v))
        elseif k == "n" then m.context:add_nogood(ass(v))
        elseif k == "b" then
            local l = {}
            for _, x in ipairs(lst(v)) do local s = clingo.parse_term(dec(x)); l[#l + 1] = {s, m:contains(s)} end
            m.context:add_nogood(l)
        elseif k == "S" then dump_satoms(m.context.symbolic_atoms)
        end
    end
end
local function res(r)
    o("R " .. B(r.satisfiable == true) .. B(r.unsatisfiable == true) .. B(r.unknown) .. B(r.exhausted) .. B(r.interrupted))
    local s = r.satisfiable == true and "SAT" or r.unsatisfiable == true and "UNSAT" or "UNKNOWN"
    if tostring(r) ~= s then o("BAD result " .. tostring(r)) end
end
function op.solve(mode, as, limit, onm)
    local a = ass(as)
    limit = tonumber(limit)
    local cnt = 0
    if mode == "cb" or mode == "async" then
        local r = ctl():solve{assumptions = a, on_model = function (m)
            cnt = cnt + 1
            model(m)
            act(m, onm, true)
            if cnt == limit then return false end
        end, on_finish = function (f) o("F " .. B(f.satisfiable == true) .. B(f.unsatisfiable == true) .. B(f.exhausted) .. B(f.interrupted)) end}
        res(r)
        return
    end
    local h = ctl():solve{assumptions = a, yield = true}
    local ok, err = pcall(function ()
        local stopped = false
        for m in h:iter() do
            cnt = cnt + 1
            model(m)
            act(m, onm)
            if cnt == limit then stopped = true; break end
        end
        if stopped then h:cancel() end
        local r = h:get()
        if r.unsatisfiable then o("core " .. ints(h:core() or {})) end
        res(r)
    end)
    h:close()
    if not ok then error(err, 0) end
end
local function ext(s) if isint(s) then return math.tointeger(tonumber(s)) end return clingo.parse_term(dec(s)) end
function op.assign(s, v)
    local t
    if v == "t" then t = true elseif v == "f" then t = false end
    ctl():assign_external(ext(s), t)
end
function op.release(s) ctl():release_external(ext(s)) end
function op.cleanup() ctl():cleanup() end
function op.interrupt() ctl():interrupt() end
function op.const(n) local c = ctl():get_const(dec(n)); o("const " .. (c == nil and "none" or ser(c))) end
function op.flags(which, v)
    if v ~= "?" then ctl()[which] = v == "1" end
    o("flags " .. B(ctl()[which]))
end
function op.conflicting() o("conflicting " .. B(ctl().is_conflicting)) end
function op.satoms() dump_satoms(ctl().symbolic_atoms) end
function op.bysig(n, a, p)
    local w = {}
    local sa = ctl().symbolic_atoms
    local f, st, c
    if p == "1" and tonumber(a) % 2 == 0 then f, st, c = sa:by_signature(dec(n), math.tointeger(tonumber(a))) else f, st, c = sa:by_signature(dec(n), math.tointeger(tonumber(a)), p == "1") end
    for x in f, st, c do w[#w + 1] = enc(tostring(x.symbol)) end
    o("bysig " .. join(w))
end
function op.iprop() ctl():register_propagator({init = function (self, i) dump_satoms(i.symbolic_atoms) end}) end
function op.lookup(s) local x = ctl().symbolic_atoms:lookup(clingo.parse_term(dec(s))); o("lookup " .. (x == nil and "none" or satom(x))) end
local function tterm(t)
    local n = tostring(t.type)
    if n == "Number" then return "n" .. num(t.number) end
    if n == "Symbol" then return "y" .. enc(t.name) end
    local r = {}
    for _, x in ipairs(t.arguments) do r[#r + 1] = tterm(x) end
    local a = "(" .. table.concat(r, " ") .. ")"
    if n == "Function" then return "f" .. enc(t.name) .. a end
    return ({Tuple = "t", List = "l", Set = "s"})[n] .. a
end
function op.tatoms(withlit)
    for t in ctl().theory_atoms do
        local es = {}
        for _, e in ipairs(t.elements) do
            local ts = {}
            for _, x in ipairs(e.terms) do ts[#ts + 1] = tterm(x) end
            es[#es + 1] = (#ts > 0 and table.concat(ts, ",") or "-") .. ":" .. #e.condition .. ":" .. ints(e.condition) .. ":" .. enc(tostring(e))
        end
        local g = t.guard
        o("tatom " .. tterm(t.term) .. " | " .. (#es > 0 and table.concat(es, "/") or "-") .. " | " .. (g == nil and "-" or enc(g[1]) .. " " .. tterm(g[2])) .. " | " ..
            (withlit == "0" and "" or num(t.literal)) .. " | " .. enc(tostring(t)))
    end
end
local function nth(c, n) local i = 0; for x in c:iter() do if i == n then return x end i = i + 1 end error("index out of range") end
local function cfg(path)
    local c = ctl().configuration
    for _, p in ipairs(lst(path, ".")) do
        if isint(p) then c = nth(c, tonumber(p)) else c = c[p] if c == nil then error("unknown option") end end
    end
    return c
end
function op.confget(path)
    local p = lst(path, ".")
    local last = table.remove(p)
    local c = cfg(table.concat(p, "."))
    if last == nil then o("conf sub") return end
    local v
    if isint(last) then v = nth(c, tonumber(last)) else
        v = c[last]
        if v == nil then
            c:description(last)
        end
    end
    o("conf " .. (v == nil and "none" or type(v) == "string" and enc(v) or "sub"))
end
function op.confset(path, val)
    local p = split(path, ".")
    local last = table.remove(p)
    cfg(table.concat(p, "."))[last] = dec(val)
    o("ok")
end
function op.confkeys(path)
    local c = cfg(path)
    local k = c.keys
    if type(k) ~= "table" then k = {} end
    o("keys " .. table.concat(k, " "))
    for _, x in ipairs(k) do o("desc " .. x .. " " .. enc(c:description(x))) end
    o("len " .. #c)
end
local function g(x) return string.format("%g", x) end
local function keys(t) local k = {} for x in pairs(t) do k[#k + 1] = x end table.sort(k) return k end
function op.stat(path)
    local s = ctl().statistics
    for _, p in ipairs(split(path, ".")) do
        if isint(p) then s = s[tonumber(p) + 1] else s = s[p] end
        if s == nil then error("no such statistic") end
    end
    if type(s) == "number" then o("stat " .. g(s))
    elseif #s > 0 then o("stat " .. #s)
    else o("stat " .. table.concat(keys(s), ",")) end
end
local function stree(s)
    if type(s) == "number" then return g(s) end
    local r = {}
    if #s > 0 then for _, x in ipairs(s) do r[#r + 1] = stree(x) end return "[" .. table.concat(r, " ") .. "]" end
    for _, k in ipairs(keys(s)) do r[#r + 1] = enc(k) .. "=" .. stree(s[k]) end
    return "{" .. table.concat(r, " ") .. "}"
end
function op.conftree(path)
    path = path or ""
    local function rec(pre, c)
        local ks = c.keys
        if type(ks) ~= "table" then ks = nil end
        local n = #c
        local sk = {}
        for _, k in ipairs(ks or {}) do sk[#sk + 1] = k end
        table.sort(sk)
        o("c " .. (pre == "" and "/" or pre) .. " ?" .. B(ks ~= nil) .. " " .. n .. " " .. table.concat(sk, ","))
        local i = 0
        if n > 0 then for x in c:iter() do rec(pre .. "/" .. i, x) i = i + 1 end end
        if i ~= n then o("BAD iteration") end
        for _, k in ipairs(sk) do
            local v = c[k]
            o("d " .. pre .. "/" .. k .. " " .. enc(c:description(k)))
            if c["__desc_" .. k] ~= c:description(k) then o("BAD description") end
            if v == nil then o("v " .. pre .. "/" .. k .. " none")
            elseif type(v) == "string" then o("v " .. pre .. "/" .. k .. " =" .. enc(v))
            elseif n == 0 or path ~= "" then rec(pre .. "/" .. k, v) end
        end
    end
    rec(path == "" and "" or "/" .. path:gsub("%.", "/"), cfg(path))
end
function op.statfull()
    local function rec(pre, s)
        local p = pre == "" and "/" or pre
        if type(s) == "number" then o("s " .. p .. " " .. string.format("%.17g", s)) return end
        if #s > 0 then
            o("s " .. p .. " [" .. #s .. "]")
            for i, x in ipairs(s) do rec(pre .. "/" .. (i - 1), x) end
            return
        end
        local ks = keys(s)
        o("s " .. p .. " {" .. #ks .. "}")
        for _, k in ipairs(ks) do rec(pre .. "/" .. enc(k), s[k]) end
    end
    rec("", ctl().statistics)
end
function op.stattree() o("stats " .. stree({problem = ctl().statistics.problem})) end
-- scripted propagator, counterpart of Prop in drv.py
local Prop = {}
Prop.__index = Prop
local modes = {none = "Off", total = "Total", fix = "Fixpoint", both = "Both"}
local function new_prop(tag, items)
    local p = setmetatable({t = tag, items = {}, pcs = {}, ccs = {}, ats = {}, calls = 0}, Prop)
    for _, x in ipairs(items) do
        local f = split(x, " ")
        p.items[#p.items + 1] = f
        if f[1] == "quiet" then p.quiet = true end
        if f[1] == "pc" then p.pcs[#p.pcs + 1] = f; p.ccs[#p.ccs + 1] = f end
        if f[1] == "at" then local k = tonumber(f[2]); p.ats[k] = p.ats[k] or {}; table.insert(p.ats[k], {f[3], f[4]}) end
        if f[1] == "decide" then p.dec = f end
    end
    for _, f in ipairs(p.items) do if f[1] == "cc" then p.ccs[#p.ccs + 1] = f end end
    if p.dec then p.decide = p.decide_ end
    return p
end
function Prop:o(s) if not self.quiet then o(self.t .. s) end end
function Prop:lit(x)
    local sg = x:sub(1, 1) == "-" and -1 or 1
    local n = x:sub(2)
    if n == "!" then return sg end
    if n:sub(1, 1) == "#" then return sg * self.fresh[1 + tonumber(n:sub(2))] end
    return sg * self.map[n]
end
function Prop:lits(s) local r = {} if s ~= "-" then for _, x in ipairs(split(s, ",")) do r[#r + 1] = self:lit(x) end end return r end
function Prop:init(i)
    self.fresh, self.map, self.calls = {}, {}, 0
    for a in i.symbolic_atoms:iter() do self.map[enc(tostring(a.symbol))] = i:solver_literal(a.literal) end
    local names, m, ths = {}, {}, 0
    for k in pairs(self.map) do names[#names + 1] = k end
    table.sort(names)
    for _, k in ipairs(names) do m[#m + 1] = k .. "=" .. num(self.map[k]) end
    for _ in i.theory_atoms do ths = ths + 1 end
    self:o("init " .. num(i.number_of_threads) .. " " .. num(ths) .. " " .. tostring(i.check_mode) .. " " .. table.concat(m, " "))
    for k = 1, i.number_of_threads do i:set_state(k, {id = k, seen = 0}) end
    self.bads = pcall(function () i:set_state(i.number_of_threads + 1, {}) end) or pcall(function () i:set_state(0, {}) end)
    if self.bads then self:o("BAD set_state") end
    for _, x in ipairs(self.items) do
        local n = x[1]
        if n == "mode" then
            i.check_mode = clingo.PropagatorCheckMode[modes[x[2]]]
            self:o("mode " .. tostring(i.check_mode))
        elseif n == "watch" then if x[3] == "-" then i:add_watch(self:lit(x[2])) else i:add_watch(self:lit(x[2]), tonumber(x[3]) + 1) end
        elseif n == "fresh" then
            self.fresh[#self.fresh + 1] = x[2] == "-" and i:add_literal() or x[2] ~= "-" and i:add_literal(x[2] == "1")
            self:o("fresh " .. num(self.fresh[#self.fresh]))
        elseif n == "ic" then self:o("ic " .. B(i:add_clause(self:lits(x[2]))))
        elseif n == "iw" then
            local w = {}
            if x[6] ~= "-" then for _, y in ipairs(split(x[6], ",")) do local p = split(y, "="); w[#w + 1] = {self:lit(p[1]), math.tointeger(tonumber(p[2]))} end end
            local r
            if x[5] == "1" then r = i:add_weight_constraint(self:lit(x[2]), w, tonumber(x[3]), tonumber(x[4]), true)
            elseif x[4] ~= "0" then r = i:add_weight_constraint(self:lit(x[2]), w, tonumber(x[3]), tonumber(x[4]))
            else r = i:add_weight_constraint(self:lit(x[2]), w, tonumber(x[3])) end
            self:o("iw " .. B(r))
        elseif n == "im" then if x[4] == "-" then i:add_minimize(self:lit(x[2]), tonumber(x[3])) else i:add_minimize(self:lit(x[2]), tonumber(x[3]), tonumber(x[4])) end
        elseif n == "ip" then self:o("ip " .. B(i:propagate())) end
    end
    local tr, seen = {}, {}
    for _, l in pairs(self.map) do l = math.abs(l); if not seen[l] then seen[l] = true; tr[#tr + 1] = l end end
    for _, l in pairs(self.fresh) do l = math.abs(l); if not seen[l] then seen[l] = true; tr[#tr + 1] = l end end
    table.sort(tr)
    self.track = tr
    if not self.quiet then self:dump("initend", i.assignment) end
end
function Prop:dump(what, a)
    local vs = {}
    for _, k in ipairs(self.track) do
        for _, l in ipairs({k, -k}) do
            local v = a:value(l)
            vs[#vs + 1] = num(l) .. ":" .. (v == nil and "u" or v and "t" or "f") .. ":" .. (v == nil and "-" or num(a:level(l))) .. ":" .. B(a:is_fixed(l)) .. B(a:is_true(l)) .. B(a:is_false(l)) .. B(a:has_lit(l))
        end
    end
    local n = a.decision_level
    local ds, tr, off = {}, {}, {}
    for k = 0, n do ds[#ds + 1] = a:decision(k) end
    local t = a.trail
    for l in t:iter() do tr[#tr + 1] = l end
    if #tr ~= #t then self:o("BAD trail size") end
    local cnt = 0
    for k, l in pairs(t) do cnt = cnt + 1; if k ~= cnt or l ~= tr[k] or t[k] ~= l then self:o("BAD trail") end end
    if cnt ~= #t or t[cnt + 1] ~= nil then self:o("BAD trail pairs") end
    for k = 0, n do off[#off + 1] = num(t:first(k) - 1) .. "-" .. num(t:last(k)) end
    cnt = 0
    for k, l in pairs(a) do cnt = cnt + 1; if k ~= cnt or a[k] ~= l then self:o("BAD assignment") end end
    local al = {}
    for l in a:iter() do al[#al + 1] = l; if a[#al] ~= l then self:o("BAD assignment iter") end end
    if cnt ~= #a or #al ~= #a or a[cnt + 1] ~= nil or a[0] ~= nil then self:o("BAD assignment size") end
    local bad = pcall(function () return a:level(1 << 28) end) and "0" or "1"
    self:o(what .. " | " .. num(n) .. " " .. num(a.root_level) .. " " .. B(a.has_conflict) .. " " .. B(a.is_total) .. " " .. num(#a) .. " " .. bad .. B(a:has_lit(1 << 28)) .. " | " ..
        (#vs > 0 and table.concat(vs, " ") or "-") .. " | " .. ints(ds) .. " | " .. ints(tr) .. " | " .. table.concat(off, " "))
end
function Prop:enforce(c, cs)
    local a = c.assignment
    for _, x in ipairs(cs) do
        local ls = self:lits(x[5])
        local sg = x[4] == "1" and -1 or 1
        local sat, fr = false, 0
        for _, l in ipairs(ls) do
            sat = sat or a:is_true(sg * l)
            if a:value(sg * l) == nil then fr = fr + 1 end
        end
        if not sat and fr <= 1 then
            local args = {ls}
            if x[2] == "1" then args.tag = true end
            if x[3] == "1" then args.lock = true end
            local r
            if x[4] == "1" then r = c:add_nogood(args) else r = c:add_clause(args) end
            self:o("add " .. x[5] .. " " .. B(r))
            if not r then return end
            r = c:propagate()
            self:o("pp " .. B(r))
            if not r then return end
        end
    end
end
function Prop:state(id, s)
    if type(s) ~= "table" or s.id ~= id then self:o("BAD state") else s.seen = s.seen + 1 end
end
function Prop:propagate(c, changes, s)
    self:state(c.thread_id, s)
    if not self.quiet then self:dump("prop " .. num(c.thread_id - 1) .. " " .. ints(changes), c.assignment) end
    self.calls = self.calls + 1
    for _, x in ipairs(self.ats[self.calls] or {}) do
        if x[1] == "watch" then c:add_watch(self:lit(x[2]))
        elseif x[1] == "unwatch" then c:remove_watch(self:lit(x[2]))
        end
        if x[1] == "fresh" then
            self.fresh[#self.fresh + 1] = c:add_literal()
            self:o("fresh " .. num(self.fresh[#self.fresh]))
        else self:o("at " .. x[1] .. " " .. x[2] .. " " .. B(c:has_watch(self:lit(x[2])))) end
    end
    self:enforce(c, self.pcs)
end
function Prop:check(c, s)
    self:state(c.thread_id, s)
    if not self.quiet then self:dump("check " .. num(c.thread_id - 1), c.assignment) end
    self:enforce(c, self.ccs)
end
function Prop:undo(id, a, changes, s)
    self:state(id, s)
    if not self.quiet then self:dump("undo " .. num(id - 1) .. " " .. ints(changes), a) end
end
function Prop:decide_(id, a, fallback, s)
    self:state(id, s)
    local r = self.dec[2] == "0" and 0 or fallback
    for _, l in ipairs(self:lits(self.dec[3])) do
        if a:value(l) == nil then r = l; break end
    end
    if not self.quiet then self:dump("decide " .. num(id - 1) .. " " .. num(fallback) .. " " .. num(r), a) end
    return r
end
function op.tprop()
    local p = {}
    function p:init(i)
        self.sy, self.th = {}, {}
        for x in i.symbolic_atoms:iter() do self.sy[#self.sy + 1] = {tostring(x.symbol), i:solver_literal(x.literal)} end
        for t in i.theory_atoms do
            local es = {}
            for _, e in ipairs(t.elements) do
                local cs = {}
                for _, c in ipairs(e.condition) do cs[#cs + 1] = i:solver_literal(c) end
                es[#es + 1] = {i:solver_literal(e.condition_id), cs}
            end
            self.th[#self.th + 1] = {i:solver_literal(t.literal), es}
        end
        o("ti " .. #self.th)
    end
    function p:check(c)
        local a = c.assignment
        if not a.is_total then return end
        local r = {}
        for _, x in ipairs(self.sy) do if a:is_true(x[2]) then r[#r + 1] = enc(x[1]) end end
        table.sort(r)
        o("ta " .. (#r > 0 and table.concat(r, " ") or "-"))
        for k, t in ipairs(self.th) do
            local v = ""
            for _, e in ipairs(t[2]) do
                local all = true
                for _, x in ipairs(e[2]) do all = all and a:is_true(x) end
                if a:is_true(e[1]) ~= all or a:is_true(e[1]) == a:is_false(e[1]) then o("BAD condition_id " .. (k - 1)) end
                v = v .. B(a:is_true(e[1]))
            end
            o("tt " .. (k - 1) .. " " .. B(a:is_true(t[1])) .. " " .. (v == "" and "-" or v))
        end
    end
    ctl():register_propagator(p)
end
function op.prop(tag, ...) ctl():register_propagator(new_prop(tag, {...})) end

function op.observe(replace) ctl():register_observer(setmetatable({}, Obs), replace == "1") end
function op.backend(...)
    local b = ctl():backend()
    local env = {}
    local function one(x)
        if env[x] then return env[x] end
        if x:sub(1, 1) == "-" and env[x:sub(2)] then return -env[x:sub(2)] end
        return math.tointeger(tonumber(x))
    end
    local function al(s) local r = {} if s ~= "-" then for _, x in ipairs(split(s, ",")) do r[#r + 1] = one(x) end end return r end
    local function awl(s) local r = {} if s ~= "-" then for _, x in ipairs(split(s, ",")) do local p = split(x, "="); r[#r + 1] = {one(p[1]), math.tointeger(tonumber(p[2]))} end end return r end
    local et = {Release = clingo.ExternalType.Release, Free = clingo.ExternalType.Free, True_ = clingo.ExternalType.True, False_ = clingo.ExternalType.False}
    local ok, err = pcall(function (...)
        for _, c in ipairs({...}) do
            local k = split(c, " ")
            local n = k[1]
            if n == "atom" then if k[3] == "-" then env[k[2]] = b:add_atom() else env[k[2]] = b:add_atom(clingo.parse_term(dec(k[3]))) end
            elseif n == "rule" then b:add_rule{head = al(k[3]), body = al(k[4]), choice = k[2] == "1"}
            elseif n == "wrule" then b:add_weight_rule{al(k[3]), math.tointeger(tonumber(k[4])), awl(k[5]), k[2] == "1"}
            elseif n == "min" then b:add_minimize{priority = math.tointeger(tonumber(k[2])), body = awl(k[3])}
            elseif n == "ext" then b:add_external(one(k[2]), et[k[3]])
            else error("bad backend op " .. n) end
        end
        local r = {}
        for _, k in ipairs(keys(env)) do r[#r + 1] = k .. "=" .. num(env[k]) end
        o("ids " .. table.concat(r, " "))
    end, ...)
    b:close()
    if not ok then error(err, 0) end
end

for line in io.lines() do
    if line:sub(1, 1) == "#" then
        io.write(line, "\n")
        io.flush()
        reset()
        if os.getenv("DRV_GC") then collectgarbage() collectgarbage() end
    else
        out = {}
        local a = split(line, "\t")
        local f = op[a[1]]
        local ok, err = pcall(function () if not f then error("unknown op " .. a[1]) end f(unpack(a, 2)) end)
        if not ok then o("ERR Error " .. enc(tostring(err))) end
        out[#out + 1] = "."
        io.write(table.concat(out, "\n"), "\n")
        io.flush()
    end
end
-- closing the state would unload the module while the (not unloadable) installed library still refers to it
collectgarbage()
collectgarbage()
os.exit(0, false)
