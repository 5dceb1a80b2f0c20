-------------------------------- MODULE HostMC --------------------------------
EXTENDS Host
=============================================================================
