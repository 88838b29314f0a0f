"""Per property settings. cases: per shard, in the quick and thorough tiers."""
# name: (quick cases per shard, thorough cases per shard)
CASES = {
    "C01": (20000, 400000), "C02": (4000, 60000), "C03": (2000, 60000), "C04": (2000, 60000), "C05": (1500, 40000),
    "C06": (4000, 40000), "C07": (4000, 40000), "C08": (2000, 40000), "C09": (4000, 40000), "C10": (4000, 40000),
    "C11": (20000, 400000), "C12": (6000, 40000), "C13": (6000, 40000), "C14": (2000, 40000), "C15": (6000, 40000),
    "C16": (6000, 40000), "C17": (2000, 40000), "C18": (6000, 40000), "C19": (1000, 20000), "C20": (3000, 40000),
    "C21": (2000, 40000), "C22": (8000, 40000), "C23": (6000, 40000), "C24": (4000, 40000), "C25": (20000, 400000),
    "C26": (2000, 40000), "C27": (5000, 40000), "C28": (600, 20000), "C32": (6000, 100000), "C33": (12000, 200000),
}
DEFAULT_CASES = (2000, 40000)
META = {}
ASSUMPTIONS = [
    "byte offsets passed to searches and character stepping do not exceed the size of the string",
    "the copy of UnicodeData 16.0 in /verif/data is the reference for Unicode data",
    "clang's AddressSanitizer and UndefinedBehaviorSanitizer report what they document; what no executed case reaches is not judged",
]
