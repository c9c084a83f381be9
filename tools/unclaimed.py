NA={
"Y02":"normalize() hands the text to the platform's normaliser (Windows NormalizeString / CoreFoundation); on this platform the code does not exist, and the deciding tables are external",
}
