module verif.local/getg

