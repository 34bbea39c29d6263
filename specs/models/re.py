"""Regular expressions on known text."""


class Match:
    def __init__(self, found):
        self.found = found

    def group(self, k=0):
        return self.found[k]

    def groups(self):
        return tuple(self.found[1:])

    def __getitem__(self, k):
        return self.found[k]


class Pattern:
    def __init__(self, pattern):
        self.pattern = pattern

    def search(self, string):
        return search(self.pattern, string)

    def match(self, string):
        return match(self.pattern, string)

    def fullmatch(self, string):
        return fullmatch(self.pattern, string)

    def findall(self, string):
        return findall(self.pattern, string)

    def sub(self, repl, string):
        return sub(self.pattern, repl, string)


def compile(pattern):
    return Pattern(pattern)


def made(found):
    return None if found is None else Match(found)


def search(pattern, string):
    return made(regex("search", pattern, string))


def match(pattern, string):
    return made(regex("match", pattern, string))


def fullmatch(pattern, string):
    return made(regex("fullmatch", pattern, string))


def findall(pattern, string):
    return list(regex("findall", pattern, string))


def sub(pattern, repl, string):
    return regex("sub", pattern, string, repl)
