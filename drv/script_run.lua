-- Loads a program with embedded scripts through the Lua interface: ground, solve, print.
local clingo = require("clingo")
local ctl = clingo.Control({"0"}, function (c, m) print("LOG", c, (m:gsub("\n", " "))) end)
local ok, err = pcall(function ()
    ctl:load(arg[1])
    ctl:ground({{"base", {}}})
end)
if not ok then
    print("ERR " .. tostring(err):gsub("\n", " "))
else
    ctl:solve{on_model = function (m)
        print("ANSWER")
        for _, x in ipairs(m:symbols{atoms = true}) do print("A " .. tostring(x)) end
        for _, x in ipairs(m:symbols{terms = true}) do print("T " .. tostring(x)) end
    end}
end
io.stdout:flush()
os.exit(0, false)
