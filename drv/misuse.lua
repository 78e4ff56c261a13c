-- Calls every method of every object of the Lua interface with arbitrary arguments: errors are fine, crashes are not.
local clingo = require("clingo")
local seed, n = tonumber(arg[1]), tonumber(arg[2])
math.randomseed(seed, 7)
local events, errors, last = 0, 0, ""
local R = math.random
local function pick(t) return t[R(#t)] end
local objs = {}     -- name -> object, valid in the current situation
-- literals which do not exist are outside of what the engine accepts
local function value(d, lits)
    local k = R(24)
    if k == 1 then return nil
    elseif k == 2 then return R(2) == 1
    elseif k <= 5 then return lits and pick{1, -1} or pick{0, -1, 1, 2, 3, 7}
    elseif k == 6 then return 1.5
    elseif k == 7 then return "x"
    elseif k == 8 then return pick{"", "a", "base", "p(", "1", "solve.models", "#external a.", "a.b", "\xff"}
    elseif k == 9 then return function(...) return ... end
    elseif k == 10 then return function() error("boom") end
    elseif k == 11 then return clingo.Function("f", {clingo.Number(1)})
    elseif k == 12 then return clingo.Number(3)
    elseif k == 13 then return clingo.Infimum
    elseif k == 14 then return coroutine.create(function() end)
    elseif k <= 20 and d > 0 then
        local t = {}
        for i = 1, R(0, 3) do t[i] = value(d - 1, lits) end
        if R(6) == 1 then t[pick{"a", "init", "check", "head", "body", "choice", 1.5, -1, 0}] = value(d - 1, lits) end
        if R(12) == 1 then setmetatable(t, {__len = function() return pick{-1, 3, 1.5} end}) end
        return t
    else
        local l = {}
        for k in pairs(objs) do l[#l + 1] = k end
        table.sort(l)
        if #l == 0 then return 1 end
        return objs[pick(l)]
    end
end
-- backends must be closed exactly once
local skip = {__gc = true, close = true}
local function methods(o)
    local r, seen = {}, {}
    local m = getmetatable(o)
    if type(m) ~= "table" then return r end
    for k, f in pairs(m) do
        if type(k) == "string" and type(f) == "function" and not skip[k] then r[#r + 1] = k; seen[k] = f end
    end
    table.sort(r)
    return r, seen
end
local attrs = {"symbols", "name", "string", "number", "infimum", "arguments", "type", "negative", "positive", "cost", "context", "thread_id", "optimality_proven", "symbolic_atoms", "theory_atoms", "assignment", "configuration", "statistics", "keys",
    "is_constant", "use_enumeration_assumption", "number_of_threads", "check_mode", "trail", "size", "decision_level", "has_conflict", "is_total", "literal", "symbol", "is_fact", "is_external", "elements", "guard", "term", "terms", "condition", "condition_id", "id", "assigned", "signatures", "nope", 1, 0, -1, 5, 1.5, true, {}}
local budget = 0
local function poke(lits, times)
    if budget > 150 then return end
    budget = budget + times
    for _ = 1, times do
        local l = {}
        for k in pairs(objs) do l[#l + 1] = k end
        table.sort(l)
        local name = pick(l)
        local o = objs[name]
        events = events + 1
        local k = R(10)
        if k <= 3 then
            local a = pick(attrs)
            last = name .. "[" .. tostring(a) .. "]"
            local ok, v = pcall(function() return o[a] end)
            if ok and type(v) == "userdata" and R(4) == 1 then objs[name .. "." .. tostring(a)] = v end
            if not ok then errors = errors + 1 end
        elseif k == 4 then
            local a, v = pick(attrs), value(1, lits)
            if a == "thread_id" or type(o) == "table" then a = "nope" end
            last = name .. "[" .. tostring(a) .. "]=" .. tostring(v)
            if not pcall(function() o[a] = v end) then errors = errors + 1 end
        elseif k == 5 then
            last = name .. " comparison"
            local x = value(1, lits)
            pcall(function() return o == x end)
            pcall(function() return o < x end)
            pcall(function() return x <= o end)
            pcall(function() return #o end)
            pcall(function() return tostring(o) end)
            pcall(function() for a, b in pairs(o) do return a end end)
            pcall(function() local i = 0; for a, b in ipairs(o) do i = i + 1; if i > 5 then return end end end)
            pcall(function() return o(x) end)
        else
            local ms, fs = methods(o)
            if type(o) == "table" then
                ms, fs = {}, {}
                for q, f in pairs(o) do if type(f) == "function" and q ~= "clingo_main" then ms[#ms + 1] = q; fs[q] = f end end
                table.sort(ms)
            end
            if ms and #ms > 0 then
                local m = pick(ms)
                local args = {}
                local na = R(0, 4)
                for i = 1, na do args[i] = value(3, lits) end
                local self = o
                if R(8) == 1 then self = value(2, lits) end
                last = name .. ":" .. m .. "/" .. na
                local f = fs[m]
                local ok, e
                if type(o) == "table" then ok, e = pcall(f, table.unpack(args, 1, na))
                else ok, e = pcall(f, self, table.unpack(args, 1, na)) end
                if not ok then errors = errors + 1
                elseif type(e) == "userdata" and R(4) == 1 and m ~= "solve" then objs[name .. ":" .. m] = e
                elseif type(e) == "function" then pcall(e); pcall(e, value(1, lits)) end
            end
        end
        if os.getenv("MISUSE_TRACE") then io.stderr:write(last, "\n") end
        if R(30) == 1 then collectgarbage() end
    end
end
local function situation(i)
    objs, budget = {}, 0
    local kind = i % 6
    local c = clingo.Control({"0", "--warn=none"}, function() end)
    c:add("base", {}, "{a(1..2)}. #external e. b :- a(1). #show b/0. #theory t { x { + : 1, binary, left; - : 2, unary }; &d/1 : x, {<=}, x, any }. &d(1) { 1+X,f : a(X) ; {2,(3,)} : b } <= -4 :- a(1).")
    c:ground{{"base", {}}}
    if kind == 0 then
        objs = {sym = clingo.Function("f", {clingo.Number(1), clingo.String("s")}), num = clingo.Number(7), str = clingo.String("x"), inf = clingo.Infimum, tup = clingo.Tuple{clingo.Number(1)}, clingo = {Function = clingo.Function, Number = clingo.Number, String = clingo.String, Tuple = clingo.Tuple, parse_term = clingo.parse_term, Control = nil},
            st = clingo.SymbolType, ms = clingo.TruthValue, mt = clingo.ModelType}
        poke(true, 60)
    elseif kind == 1 then
        local a, t
        for x in c.symbolic_atoms:iter() do a = x end
        for x in c.theory_atoms do t = x end
        objs = {atoms = c.symbolic_atoms, atom = a, tatom = t, elem = t.elements[1], term = t.term, tt = t.elements[1].terms[1]}
        poke(true, 60)
    elseif kind == 2 then
        c:solve{on_model = function(m) objs = {model = m, context = m.context}; poke(true, 20); objs = {} end}
    elseif kind == 3 then
        local h = c:solve{yield = true}
        pcall(function() for m in h:iter() do objs = {model = m, handle = h}; poke(true, 8); objs = {} end end)
        pcall(function() h:close() end)
    elseif kind == 4 then
        local p = {}
        function p:init(i) objs = {init = i, atoms = i.symbolic_atoms, assignment = i.assignment}; poke(true, 25); objs = {}; pcall(function() for a in i.symbolic_atoms:iter() do i:add_watch(i:solver_literal(a.literal)) end end) end
        function p:check(ctl) objs = {control = ctl, assignment = ctl.assignment, trail = ctl.assignment.trail}; poke(true, 8); objs = {} end
        function p:propagate(ctl, ch) objs = {control = ctl, assignment = ctl.assignment, trail = ctl.assignment.trail}; poke(true, 4); objs = {} end
        for _, k in ipairs{"init", "check", "propagate"} do if R(3) == 1 then p[k] = nil end end
        c:register_propagator(p)
        pcall(function() c:solve() end)
    else
        local b = c:backend()
        objs = {conf = c.configuration, solver = c.configuration.solver, solve = c.configuration.solve, backend = b}
        poke(true, 40)
        pcall(function() b:close() end)
        pcall(function() c:solve() end)
    end
    objs = {}
    c = nil
    if R(3) == 1 then collectgarbage() end
end
for i = 1, n do
    print("CASE " .. seed .. "-" .. i)
    io.stdout:flush()
    situation(i)
end
-- numbers which do not fit
local function bad(k, t) print("BAD " .. k .. " " .. tostring(t)) end
local function expect(k, x, y) if x ~= y then bad(k, tostring(x) .. " expected " .. tostring(y)) end end
for _, x in ipairs{1 << 31, -(1 << 31) - 1, 1 << 32, 1 << 40, math.maxinteger, math.mininteger, 1.5, -0.25, 1e30, 1/0} do
    for k, f in pairs{Number = function() return clingo.Number(x) end, Function = function() return clingo.Function("f", {x}) end, Tuple = function() return clingo.Tuple{1, x} end} do
        local ok, r = pcall(f)
        if ok then bad("range-" .. k, tostring(x) .. " became " .. tostring(r)) end
    end
end
for _, x in ipairs{(1 << 31) - 1, -(1 << 31), 0, -1, 2.0} do
    expect("number", clingo.Number(x).number, math.tointeger(x))
    expect("number", clingo.Function("f", {x}).arguments[1].number, math.tointeger(x))
end
-- indices of trails and assignments
local c = clingo.Control()
c:add("base", {}, "{a;b;c}.")
c:ground{{"base", {}}}
c:register_propagator{check = function(self, ctl)
    local t, a = ctl.assignment.trail, ctl.assignment
    for _, i in ipairs{0, -1, -2, -1000, #t + 1, #t + 1000} do expect("trail-bounds", t[i], nil) end
    for _, i in ipairs{0, -1, -1000, #a + 1, #a + 100} do expect("assignment-bounds", a[i], nil) end
    for i, l in ipairs(t) do expect("trail", t[i], l) end
    local k = 0
    for l in t:iter() do k = k + 1; expect("trail-iter", t[k], l) end
    expect("trail-len", k, #t)
end}
expect("result", tostring(c:solve()), "SAT")
print("COUNT misuse_errors " .. errors)
print("events " .. events)
c = nil
collectgarbage()
collectgarbage()
local live = clingo.parse_term("\"x\"")
if os.getenv("VF_ZERO") then
    local l = clingo.parse_term("ledger:live").string
    if l:sub(1, #os.getenv("VF_ZERO")) ~= os.getenv("VF_ZERO") then bad("leak", "still alive at the end: " .. l) end
end
io.stdout:flush()
os.exit(0, false)
