def F(): return 'file F'
class C: tag = 'file C'
class OuterF:
    def F(): return 'file F'
class OuterC:
    class C: tag = 'file C'
