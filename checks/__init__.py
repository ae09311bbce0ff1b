# property: (module, function, worker processes)
REGISTRY = {
    "C01": ("bitfields", "reads", 8),
    "C02": ("bitfields", "writes", 8),
    "C03": ("bitfields", "rejection", 8),
    "C04": ("bitfields", "predicates", 8),
    "C05": ("isa", "words", 8),
    "C06": ("isa", "encoding", 8),
    "C07": ("isa", "validation", 8),
    "C08": ("isa", "opmap", 1),
    "C09": ("storage", "memory", 8),
    "C10": ("storage", "memory_iter", 8),
    "C11": ("storage", "registers", 8),
    "C12": ("storage", "register_names", 1),
    "C13": ("cards", "columns", 8),
    "C14": ("cards", "argus_cards", 8),
    "C15": ("cards", "decks", 8),
    "C16": ("symbols", "building", 8),
    "C17": ("symbols", "queries", 8),
    "C18": ("symbols", "tables", 1),
    "C19": ("tooling", "checkers", 8),
    "C20": ("tooling", "lister", 8),
    "C21": ("tooling", "symbol_tools", 8),
    "C22": ("tooling", "genlines", 1),
    "C23": ("tooling", "genpages", 1),
    "C24": ("tooling", "listing", 1),
    "C25": ("isa", "stored", 1),
    "C26": ("tooling", "charset", 1),
}
