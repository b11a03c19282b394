# How many times the quick workload of a property is enlarged.
MUL = {"C03": 6, "C04": 6, "C05": 6, "C06": 4, "C07": 6, "C08": 2, "C09": 5, "C10": 6, "C12": 3, "C13": 4, "C14": 4,
       "C15": 8, "C16": 8, "C17": 10, "C19": 3, "C21": 6, "C22": 4, "C24": 3, "C25": 4, "C26": 4, "C27": 4, "C28": 4}
