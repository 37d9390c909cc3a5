class _data:
    pass

class table(_data):

    def __init__(self, rows):
        self.rows = rows

    def columns(self, name):
        rows = self.rows
        rows[name] = 1 # modified
        rows = rows.copy()
        rows[name] = 2
        return rows

def start():
    table({}).columns("x")
