"""Cases per worker (8 workers) of the quick tier; thorough multiplies."""
BUDGET = {
    "C01": 8000, "C02": 8000, "C03": 900, "C04": 6000, "C05": 8000, "C06": 20000, "C07": 15000, "C08": 15000, "C09": 12000,
    "C10": 12000, "C11": 8000, "C12": 10000, "C13": 6000, "C15": 20000, "C16": 20000, "C17": 15000, "C19": 3000, "C14": 4000, "C18": 3500, "C20": 2500, "C21": 5000, "C30": 4000,
    "C22": 450, "C23": 700, "C24": 1200, "C25": 1500, "C26": 450, "C27": 40000, "C28": 6000,
    "C29": 1500, "C31": 5000, "C32": 4000, "C33": 15000, "C34": 15000, "C35": 3500, "C36": 3500, "C37": 50000, "C38": 3500, "C39": 8000, "C40": 12000,
}
THOROUGH = {}
NEEDS_BIN = {"C03", "C22", "C23", "C24", "C25", "C26", "C28", "C36", "C38"}
