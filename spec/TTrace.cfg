SPECIFICATION TSpec
ALIAS Where
