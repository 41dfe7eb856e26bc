"""One rule function per property."""
RULES = {
    "C01": "schedule.c01",
    "C02": "schedule.c02",
    "C03": "lifecycle.c03",
    "C04": "lifecycle.c04",
    "C05": "lifecycle.c05",
    "C06": "lifecycle.c06",
    "C07": "running.c07",
    "C08": "strikes.c08",
    "C09": "strikes.c09",
    "C10": "strikes.c10",
    "C11": "wire.c11",
    "C12": "loop.c12",
    "C13": "loop.c13",
    "C14": "loop.c14",
    "C15": "loop.c15",
    "C16": "registry.c16",
    "C30": "adding.c30",
    "C29": "calling.c29",
    "C34": "keys.c34",
    "C35": "lifetimes.c35",
    "C32": "conflicts.c32",
    "C38": "commands.c38",
    "C43": "counting.c43",
    "C31": "modes.c31",
    "C33": "snapshot.c33",
    "C36": "agenda.c36",
    "C39": "clearing.c39",
    "C17": "gates.c17",
    "C18": "gates.c18",
    "C19": "limits.c19",
    "C20": "handlers.c20",
    "C21": "handlers.c21",
    "C22": "resolution.c22",
    "C23": "resolution.c23",
    "C24": "loop.c24",
    "C25": "results.c25",
    "C26": "results.c26",
    "C27": "progress.c27",
    "C28": "cancelling.c28",
    "C37": "handlers.c37",
    "C40": "handlers.c40",
    "C41": "limits.c41",
    "C42": "limits.c42",
}
