-- Interpreter of diagnostic histories (checks/p19.py), see diag.py. Messages without logger go to the error output of the process.
local clingo = require("clingo")
local ok = {}
for c in ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.()=<>&'"):gmatch(".") do ok[c] = true end
local function enc(s)
    if s == "" then return "%" end
    return (s:gsub(".", function(c) if ok[c] then return c end return string.format("%%%02X", c:byte()) end):gsub("\n", "%%0A"))
end
local function dec(s)
    if s == "%" then return "" end
    return (s:gsub("%%(%x%x)", function(h) return string.char(tonumber(h, 16)) end))
end
local function split(s, c)
    local r, x = {}, ""
    for i = 1, #s do
        local d = s:sub(i, i)
        if d == c then r[#r + 1] = x; x = "" else x = x .. d end
    end
    r[#r + 1] = x
    return r
end
local out = {}
local function logger(kind, ch)
    if kind == "-" then return nil end
    return function(c, m) out[#out + 1] = "M " .. ch .. " " .. tostring(c) .. " " .. enc(m) end
end
local function limit(x) if x == "-" then return nil end return tonumber(x) end
local ctls, dead = {}, {}
local ctlops = {add = 1, part = 1, gpart = 1, ground = 1, load = 1}
for line in io.lines() do
    if line:sub(1, 1) == "#" then ctls = {}; dead = {}; print(line)
    else
        local f = split(line, "\t")
        out = {}
        local res, msg
        if ctlops[f[1]] and dead[f[2]] then print("R dead")
        else
        res, msg = pcall(function()
            if f[1] == "new" then
                local a = {}
                if f[5] ~= "-" then for _, x in ipairs(split(f[5], ";")) do a[#a + 1] = dec(x) end end
                ctls[f[2]] = clingo.Control(a, logger(f[3], "C" .. f[2]), limit(f[4]))
                collectgarbage()
            elseif f[1] == "add" then ctls[f[2]]:add("base", {}, dec(f[3]))
            elseif f[1] == "part" then
                local p = {}
                for _, x in ipairs(split(f[4], ";")) do if x ~= "" then p[#p + 1] = x end end
                ctls[f[2]]:add(f[3], p, dec(f[5]))
            elseif f[1] == "gpart" then
                local p = {}
                for _, x in ipairs(split(f[4], ";")) do if x ~= "" then p[#p + 1] = clingo.Number(math.tointeger(tonumber(x))) end end
                ctls[f[2]]:ground({{f[3], p}})
            elseif f[1] == "ground" then ctls[f[2]]:ground({{"base", {}}})
            elseif f[1] == "load" then ctls[f[2]]:load(dec(f[3]))
            elseif f[1] == "term" then out[#out + 1] = "T " .. enc(tostring(clingo.parse_term(dec(f[4]), logger(f[2], "P"), limit(f[3]))))
            elseif f[1] == "del" then ctls[f[2]] = nil; collectgarbage()
            end
        end)
        for _, x in ipairs(out) do print(x) end
        if res then print("R ok") else print("R err RuntimeError " .. enc(tostring(msg):gsub("^[^\n]-: ", "", 0))) end
        if not res and ctlops[f[1]] then dead[f[2]] = true end
        end
        print(".")
        io.stdout:flush()
        io.stderr:flush()
    end
end
os.exit(0, false)
