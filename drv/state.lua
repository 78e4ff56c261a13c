-- State of controls and arguments of the Lua interface against independent expectations.  usage: state.lua SEED N
local clingo = require("clingo")
local seed, n = tonumber(arg[1]), tonumber(arg[2])
math.randomseed(seed, 11)
local R = math.random
local events, bad = 0, {}
local function pick(t) return t[R(#t)] end
local function BAD(key, txt)
    if not bad[key] then bad[key] = true; print("BAD " .. key .. " " .. tostring(txt):gsub("\n", " | "):sub(1, 800)) end
end
local function str(x)
    if type(x) == "table" and not getmetatable(x) then
        local t = {}
        for i, y in ipairs(x) do t[i] = str(y) end
        return "[" .. table.concat(t, ",") .. "]"
    end
    return tostring(x)
end
local function expect(key, got, exp, ctx)
    events = events + 1
    if str(got) ~= str(exp) then BAD(key, str(got) .. " expected " .. str(exp) .. " " .. str(ctx or "")) end
end
local function fails(key, text, f, ...)
    events = events + 1
    local ok, msg = pcall(f, ...)
    if ok then BAD(key, "no error raised, expected " .. text)
    elseif not tostring(msg):find(text, 1, true) then BAD(key, "error " .. tostring(msg) .. " expected " .. text) end
end
local F, N = clingo.Function, clingo.Number

for run = 1, n do
    -- constants, the conflicting state, switches
    local want, args, prg = {}, {}, ""
    for _, nm in ipairs{"c1", "c2", "c3"} do
        local k, v, o = R(0, 3), tostring(R(0, 9)), pick{"x", "f(" .. R(0, 5) .. ")"}
        if k & 1 ~= 0 then prg = prg .. "#const " .. nm .. "=" .. v .. ".\n"; want[nm] = v end
        if k & 2 ~= 0 then args[#args + 1] = "-c"; args[#args + 1] = nm .. "=" .. o; want[nm] = o end
    end
    args[#args + 1] = "0"
    local conflict = R(3) == 1
    prg = prg .. "v(c1,c2,c3). {a;b}.\n" .. (conflict and "a. :- a.\n" or "")
    local ctl = clingo.Control(args)
    ctl:add("base", {}, prg)
    for _, nm in ipairs{"c1", "c2", "c3", "c4", "a"} do expect("const", ctl:get_const(nm), want[nm] or nil, nm .. prg) end
    expect("conflicting-before", ctl.is_conflicting, false)
    local ec, ee = true, true
    for i = 1, 6 do
        expect("switch", {ctl.enable_cleanup, ctl.enable_enumeration_assumption}, {ec, ee})
        if R(2) == 1 then ec = R(2) == 1; ctl.enable_cleanup = ec else ee = R(2) == 1; ctl.enable_enumeration_assumption = ee end
    end
    expect("switch", {ctl.enable_cleanup, ctl.enable_enumeration_assumption}, {ec, ee})
    ctl.enable_cleanup = true; ctl.enable_enumeration_assumption = true
    fails("newindex", "unknown field: foo", function() ctl.foo = 1 end)
    fails("newindex", "unknown field: is_conflicting", function() ctl.is_conflicting = true end)
    expect("unknown-field", ctl.foo, nil)
    ctl:ground({{"base", {}}})
    local vs = {}
    for a in ctl.symbolic_atoms:by_signature("v", 3) do vs[#vs + 1] = tostring(a.symbol) end
    expect("const-ground", vs, {"v(" .. (want.c1 or "c1") .. "," .. (want.c2 or "c2") .. "," .. (want.c3 or "c3") .. ")"})
    if not conflict and R(3) == 1 then
        ctl:interrupt()
        expect("interrupt", ctl:solve().interrupted, true)
    end
    local r = ctl:solve()
    expect("conflicting", {r.satisfiable, ctl.is_conflicting, r.interrupted}, {not conflict, conflict, false}, prg)
    -- clauses added while models are enumerated, in all encodings
    local na = R(2, 5)
    local ctl = clingo.Control{"0"}
    local t = {}
    for i = 1, na do t[i] = "a(" .. i .. ")" end
    ctl:add("base", {}, "{" .. table.concat(t, ";") .. "}. fact. -neg(1). #show a/1. #show t(X):a(X). " .. pick{"", "#show."})
    ctl:ground({{"base", {}}})
    local lits = {}
    for i = 1, na do lits[i] = ctl.symbolic_atoms:lookup(F("a", {N(i)})).literal end
    local clauses, seen = {}, {}
    local function model(m)
        local cur, key = {}, ""
        for i = 1, na do
            cur[i] = m:contains(F("a", {N(i)})); key = key .. (cur[i] and "1" or "0")
            expect("is-true", {m:is_true(lits[i]), m:is_true(-lits[i])}, {cur[i], not cur[i]})
        end
        expect("contains", {m:contains(F("fact")), m:contains(F("neg", {N(1)}, false)), m:contains(F("neg", {N(1)})), m:contains(F("fact", {}, false)), m:contains(F("none"))}, {true, true, false, false, false})
        for _, c in ipairs(clauses) do
            local sat = false
            for _, l in ipairs(c) do if cur[l[1]] == l[2] then sat = true end end
            if not sat then BAD("clause-ignored", key .. " " .. str(c)) end
        end
        if seen[key] then BAD("model-repeated", key) end
        seen[key] = true
        local num = 0
        for _ in pairs(seen) do num = num + 1 end
        expect("number", {m.number, m.thread_id, #m.cost, m.optimality_proven, m.type, m.type == clingo.ModelType.StableModel}, {num, 1, 0, false, "StableModel", true})
        local shown, parts = m:symbols{shown = true}, {}
        for i, s in ipairs(shown) do parts[i] = tostring(s) end
        expect("model-str", tostring(m), table.concat(parts, " "))
        expect("symbols-none", {#m:symbols{}, #m:symbols{atoms = false}}, {0, 0})
        local cnt = 0
        for i = 1, na do if cur[i] then cnt = cnt + 1 end end
        expect("symbols", {#m:symbols{atoms = true}, #m:symbols{terms = true}, #m:symbols{atoms = true, complement = true}, #m:symbols{terms = true, atoms = true}}, {cnt + 2, cnt, na - cnt, 2 * cnt + 2})
        if R(5) <= 2 and #clauses < 4 then
            local c, enc, nog, used = {}, {}, R(2) == 1, {}
            for k = 1, R(1, na) do
                local i = R(na)
                if not used[i] then
                    used[i] = true
                    local s = R(2) == 1
                    c[#c + 1] = {i, s}
                    local e = s ~= nog
                    local sym = F("a", {N(i)})
                    enc[#enc + 1] = pick{e and lits[i] or -lits[i], {sym, e}}
                end
            end
            if R(3) == 1 then enc[#enc + 1] = {F("unknown"), not nog} end      -- changes nothing
            if R(8) == 1 then                                                  -- satisfied by an unknown atom
                enc[#enc + 1] = {F("unknown"), nog}; c = nil
            end
            if nog then m.context:add_nogood(enc) else m.context:add_clause(enc) end
            if c then clauses[#clauses + 1] = c end
            fails("clause-type", "expected", function() m.context:add_clause({"x"}) end)
            fails("clause-type", "table expected", function() m.context:add_clause(1) end)
        end
    end
    local mode, res = R(4), nil
    if mode == 1 then res = ctl:solve{on_model = model}
    elseif mode == 2 then
        local h = ctl:solve{yield = true}
        for m in h:iter() do model(m) end
        expect("model-end", h:iter()(), nil)
        res = h:get(); h:close()
    elseif mode == 3 then
        fails("callbacks", "asynchronous solving not supported", ctl.solve, ctl, {async = true, on_model = function() end})
        local h = ctl:solve{yield = true}
        local m = h:iter()()
        while m do model(m); m = h:iter()() end
        h:resume(); res = h:get(); h:close()
    else
        fails("callbacks", "callbacks and iterative solving", ctl.solve, ctl, {yield = true, on_model = function() end})
        fails("callbacks", "callbacks and iterative solving", ctl.solve, ctl, {yield = true, on_finish = function() end})
        res = ctl:solve{on_model = function(m) model(m); return true end, on_finish = function(r) expect("on-finish", r.satisfiable, true) end}
    end
    local sat = false
    for _ in pairs(seen) do sat = true end
    expect("result", {res.satisfiable, res.unsatisfiable, res.unknown, res.exhausted, res.interrupted}, {sat, not sat, false, true, false})
    expect("result-str", tostring(res), "SAT")
    for bits = 0, (1 << na) - 1 do
        local key, ok = "", true
        for i = 1, na do key = key .. ((bits >> (i - 1)) & 1) end
        for _, c in ipairs(clauses) do
            local s = false
            for _, l in ipairs(c) do if ((bits >> (l[1] - 1)) & 1 == 1) == l[2] then s = true end end
            ok = ok and s
        end
        if ok and not seen[key] then BAD("model-lost", key .. " " .. str(clauses)) end
    end
    print("CASE state " .. run .. " " .. #clauses .. " " .. na .. " " .. prg:gsub("\n", " "))
    -- the handlers decide whether to go on; results and cores
    local lim, cnt = R(1, 2), 0
    local res = ctl:solve{on_model = function(m) cnt = cnt + 1; if cnt == lim then return false end end}
    local num = 0
    for bits = 0, (1 << na) - 1 do
        local ok = true
        for _, c in ipairs(clauses) do
            local s = false
            for _, l in ipairs(c) do if ((bits >> (l[1] - 1)) & 1 == 1) == l[2] then s = true end end
            ok = ok and s
        end
        if ok then num = num + 1 end
    end
    -- clauses added during a search do not have to survive it
    if cnt ~= lim and cnt < math.min(lim, num) then BAD("stop", cnt .. " models instead of " .. lim) end
    local fin = nil
    ctl:solve{assumptions = {{F("a", {N(1)}), true}, -lits[1]}, on_finish = function(r) fin = tostring(r) end}
    local h = ctl:solve{yield = true, assumptions = {{F("a", {N(1)}), true}, -lits[1]}}
    expect("core", {h:get().satisfiable, #h:core() > 0}, {false, true})
    for _, l in ipairs(h:core()) do if l ~= lits[1] and l ~= -lits[1] then BAD("core", "literal " .. l .. " is not assumed") end end
    h:close()
    expect("on-finish", fin, "UNSAT")
    local h = ctl:solve{yield = true, assumptions = {{F("unknown"), false}, {F("fact"), true}}}
    expect("no-core", {h:get().satisfiable, h:core()}, {true, nil})
    h:cancel(); h:close(); h:close()
    expect("unknown-assumption", ctl:solve{assumptions = {{F("unknown"), true}}}.satisfiable, false)
    fails("literal", "table expected", ctl.solve, ctl, {assumptions = {F("unknown")}})
    fails("literal", "tuple expected", ctl.solve, ctl, {assumptions = {{F("unknown")}}})
    expect("unknown-assumption", ctl:solve{assumptions = {{F("unknown"), false}}}.satisfiable, true)
    -- arguments by keyword and by position
    local kw = R(2) == 1
    local ctl = clingo.Control{"0"}
    local bck = ctl:backend()
    local x, y, z, w = bck:add_atom(F("x")), bck:add_atom(F("y")), bck:add_atom(), bck:add_atom(F("w"))
    expect("add-atom", bck:add_atom(F("x")), x)
    local A = function(names, ...)
        local t = {...}
        if not kw then return t end
        local k = {}
        for i, nm in ipairs(names) do k[nm] = t[i] end
        return k
    end
    local b, w2 = R(1, 3), R(1, 3)
    bck:add_rule(A({"head", "body", "choice"}, {x, y, z}, {}, true))
    bck:add_rule(pick{A({"head"}, {}), A({"head", "body", "choice"}, {}, {x, y, z}, false), {{}, {x, y, z}}, {head = {}, body = {x, y, z}}})
    local trivial = false
    -- the first alternative is the empty constraint: it makes the program unsatisfiable
    bck:add_weight_rule(A({"head", "lower", "body", "choice"}, {w}, b, {{x, w2}, {-y, 1}}, false))
    local prio = R(-2, 2)
    bck:add_minimize(A({"priority", "body"}, prio, {{x, 2}, {y, 3}, {-z, 4}}))
    fails("kwarg", "missing", bck.add_rule, bck, {})
    fails("kwarg", "missing", bck.add_minimize, bck, {priority = 1})
    fails("kwarg", "missing", bck.add_weight_rule, bck, {{w}, 1})
    bck:close()
    local sets = {}
    local r = ctl:solve{on_model = function(m)
        local p = function(s) return m:contains(F(s)) end
        local zz = m:is_true(z)
        local v = (p"x" and w2 or 0) + (p"y" and 0 or 1)
        expect("weight-rule", p"w", v >= b, {b, w2})
        expect("minimize", m.cost, {(p"x" and 2 or 0) + (p"y" and 3 or 0) + (zz and 0 or 4)})
        sets[#sets + 1] = 1
    end}
    if r.satisfiable then expect("optimal", #sets > 0, true) end
    -- values
    fails("symbol-sign", "tuples must not have signs", F, "", {N(1)}, false)
    expect("tuple", {F("", {N(1)}), F("", {}), F("f", {}, false), F("f"), F("f", {N(1), F("", {N(2)})})}, {"(1,)", "()", "-f", "f", "f(1,(2,))"})
    expect("tuple-name", F("", {N(1)}).name, "")
    local s = F("g", {N(run), clingo.String("s\"\n\\")}, false)
    expect("symbol", {s.name, #s.arguments, s.positive, s.negative, s.type == clingo.SymbolType.Function, s, s.arguments[2].string, s.arguments[1].number},
        {"g", 2, false, true, true, "-g(" .. run .. ",\"s\\\"\\n\\\\\")", "s\"\n\\", run})
    expect("symbol-foreign", {s.number, s.string, N(1).name, N(1).arguments, N(1).positive, clingo.Supremum.name, clingo.String("a").number}, {nil, nil, nil, nil, nil, nil, nil})
    expect("symbol-types", {N(1).type, clingo.String("a").type, clingo.Infimum.type, clingo.Supremum.type, s.type}, {"Number", "String", "Infimum", "Supremum", "Function"})
    expect("parse", {clingo.parse_term("g(1+2,-f)"), clingo.parse_term("(1,)"), clingo.parse_term("2**3")}, {"g(3,-f)", "(1,)", "8"})
    fails("parse", "", clingo.parse_term, "g(")
    fails("arguments", "table expected", ctl.ground, ctl, 1)
    fails("arguments", "expected", ctl.add, ctl, "base", 1, "a.")
    fails("arguments", "expected", ctl.ground, ctl, {{1}})
    fails("self", "clingo.Control expected", ctl.ground, {}, {})
end
print("COUNT checks " .. events)
print("events " .. events)
os.exit(next(bad) == nil and 0 or 1, false)
