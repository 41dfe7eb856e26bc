"""Numbers compared as texts."""
E="execution.py"
CASES=[
("n-text",E,[("        if tonumber(current) > generation then\n            if message_id","        if current > tostring(generation) then\n            if message_id")],["C03"]),
("n-text-terminal",E,[("        if not current or tonumber(current) > generation then","        local mine = tostring(generation)\n        if not current or current > mine then")],["C03"]),
]
