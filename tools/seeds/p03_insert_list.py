ID='p03-insert-tail'; PROPERTY='P03'
NEEDS='inserting a range longer than the number of elements after the position, without reallocation, with elements that own memory'
BREAKS='an element after the insertion point is lost'
EDITS=[]
