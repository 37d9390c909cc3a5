"""Python models of library classes (interpreted like the program itself)"""
