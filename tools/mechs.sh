# mechs.sh: list every violation mechanism of the last run of a property
